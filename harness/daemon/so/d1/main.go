// Package main is a plugin.
package main

import (
	"github.com/aperturerobotics/controllerbus/plugin"

	"verifharness/daemon/dp"
)

// ControllerBusPlugin is the plugin.
var ControllerBusPlugin plugin.Plugin = dp.New("verif/d1")

func main() {}
