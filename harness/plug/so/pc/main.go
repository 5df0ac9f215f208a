// Package main is a plugin.
package main

import (
	"github.com/aperturerobotics/controllerbus/plugin"

	"verifharness/plug/reg"
)

// ControllerBusPlugin is the plugin.
var ControllerBusPlugin plugin.Plugin = reg.New("pc")

func main() {}
