// Package main is a plugin.
package main

import (
	"github.com/aperturerobotics/controllerbus/plugin"
)

// ControllerBusPlugin is the plugin.
var ControllerBusPlugin plugin.Plugin

func main() {}
