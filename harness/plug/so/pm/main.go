// Package main is a plugin.
package main

import (
	"verifharness/plug/reg"
)

// ControllerBusPlugin is the plugin.
var OtherPlugin = reg.New("pm")

func main() {}
