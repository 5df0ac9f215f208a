// Package reg is shared by the plugins and the test.
package reg

import (
	"context"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/plugin"
)

// Build builds the factories of a plugin.
var Build func(name string, b bus.Bus) []controller.Factory

// OnResolver is called with the context and the resolver of a plugin.
var OnResolver func(ctx context.Context, name string, r plugin.PluginResolver) plugin.PluginResolver

// OnUnload is called when a plugin is about to be unloaded.
var OnUnload func(name string)

// Plug is a plugin which tells the test how it is used.
type Plug struct {
	*plugin.StaticPlugin
	name string
}

// New builds a plugin.
func New(name string) *Plug {
	return &Plug{name: name, StaticPlugin: plugin.NewStaticPlugin(name, "v-"+name, func(b bus.Bus) []controller.Factory {
		return Build(name, b)
	})}
}

// NewPluginResolver builds the resolver.
func (p *Plug) NewPluginResolver(ctx context.Context, b bus.Bus) (plugin.PluginResolver, error) {
	r, err := p.StaticPlugin.NewPluginResolver(ctx, b)
	if err != nil {
		return nil, err
	}
	return OnResolver(ctx, p.name, r), nil
}

// PrePluginUnload is called before the plugin is unloaded.
func (p *Plug) PrePluginUnload() {
	OnUnload(p.name)
	p.StaticPlugin.PrePluginUnload()
}
