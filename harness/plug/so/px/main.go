// Package main is a plugin.
package main

import (
	"verifharness/plug/reg"
)

// ControllerBusPlugin is the plugin.
var ControllerBusPlugin = struct{ P *reg.Plug }{reg.New("px")}

func main() {}
