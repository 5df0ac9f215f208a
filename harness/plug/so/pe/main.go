// Package main is a plugin.
package main

import (
	"verifharness/plug/reg"
)

// ControllerBusPlugin is the plugin.
var ControllerBusPlugin = reg.New("pe")

func main() {}
