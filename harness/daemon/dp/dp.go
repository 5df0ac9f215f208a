// Package dp makes the plugins which the daemon loads.
package dp

import (
	"context"
	"errors"

	"github.com/aperturerobotics/controllerbus/bus"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	"github.com/aperturerobotics/controllerbus/directive"
	boilerplate_controller "github.com/aperturerobotics/controllerbus/example/boilerplate/controller"
	"github.com/aperturerobotics/controllerbus/plugin"
	"github.com/blang/semver/v4"
	"github.com/sirupsen/logrus"
)

var version = semver.MustParse("1.2.3")

// A, B are the config types of the plugins.
type (
	A struct{ boilerplate_controller.Config }
	B struct{ boilerplate_controller.Config }
)

// GetConfigID returns the id.
func (a *A) GetConfigID() string { return "verif/d1" }

// EqualsConfig compares the configs.
func (a *A) EqualsConfig(o config.Config) bool {
	x, ok := o.(*A)
	return ok && x.GetExampleField() == a.GetExampleField() && x.GetFailWithErr() == a.GetFailWithErr()
}

// GetConfigID returns the id.
func (a *B) GetConfigID() string { return "verif/d2" }

// EqualsConfig compares the configs.
func (a *B) EqualsConfig(o config.Config) bool {
	x, ok := o.(*B)
	return ok && x.GetExampleField() == a.GetExampleField() && x.GetFailWithErr() == a.GetFailWithErr()
}

// conf is the config of either.
type conf interface {
	GetExampleField() string
	GetFailWithErr() string
}

// ctl is the controller.
type ctl struct {
	le   *logrus.Entry
	id   string
	conf conf
}

func (c *ctl) GetControllerInfo() *controller.Info {
	return controller.NewInfo(c.id, version, "verif plugin")
}
func (c *ctl) HandleDirective(ctx context.Context, inst directive.Instance) ([]directive.Resolver, error) {
	return nil, nil
}

func (c *ctl) Execute(ctx context.Context) error {
	if e := c.conf.GetFailWithErr(); e != "" {
		return errors.New(e)
	}
	c.le.Infof("hello from %s: %s", c.id, c.conf.GetExampleField())
	return nil
}

func (c *ctl) Close() error { return nil }

// New makes the plugin.
func New(id string) plugin.Plugin {
	return plugin.NewStaticPlugin(id, "v1", func(b bus.Bus) []controller.Factory {
		if id == "verif/d1" {
			return []controller.Factory{bus.NewBusFactory(b, id, version, func() *A { return &A{} }, func(le *logrus.Entry, b bus.Bus, cc *A) (*ctl, error) {
				return &ctl{le: le, id: id, conf: cc}, nil
			})}
		}
		return []controller.Factory{bus.NewBusFactory(b, id, version, func() *B { return &B{} }, func(le *logrus.Entry, b bus.Bus, cc *B) (*ctl, error) {
			return &ctl{le: le, id: id, conf: cc}, nil
		})}
	})
}
