package ready

import (
	"context"
	"fmt"

	bus_api "github.com/aperturerobotics/controllerbus/bus/api"
	bus_api_controller "github.com/aperturerobotics/controllerbus/bus/api/controller"
	bus_bridge "github.com/aperturerobotics/controllerbus/bus/bridge"
	"github.com/aperturerobotics/controllerbus/config"
	"github.com/aperturerobotics/controllerbus/controller"
	configset_controller "github.com/aperturerobotics/controllerbus/controller/configset/controller"
	"github.com/aperturerobotics/controllerbus/controller/loader"
	"github.com/aperturerobotics/controllerbus/controller/resolver"
	"github.com/aperturerobotics/controllerbus/core"
	"github.com/aperturerobotics/controllerbus/directive"
	"github.com/blang/semver/v4"

	"verifharness/h"
)

// fres is a factory resolver with an id and version.
type fres struct {
	id  string
	ver semver.Version
}

func (r *fres) GetResolverID() string              { return r.id }
func (r *fres) GetResolverVersion() semver.Version { return r.ver }
func (r *fres) GetConfigCtorByID(ctx context.Context, id string) (config.Constructor, error) {
	return nil, nil
}

func (r *fres) GetFactoryMatchingConfig(ctx context.Context, conf config.Config) (controller.Factory, error) {
	return nil, nil
}

// runBuiltins: the built-in controllers, factories and configs say what they are.
func runBuiltins(c *h.C) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	b, _, err := core.NewCoreBus(ctx, c.Le)
	if !c.Check(err == nil, "core", "%v", err) {
		return
	}

	// says checks who a controller is, by itself and listed on the bus.
	says := func(ctrl controller.Controller, id, ver string) {
		i := ctrl.GetControllerInfo()
		if !c.Check(i != nil, "builtin-info", "%T has no info", ctrl) {
			return
		}
		c.Check(i.GetId() == id && i.GetVersion() == ver, "builtin-info", "%T says it is %q %q, not %q %q", ctrl, i.GetId(), i.GetVersion(), id, ver)
		c.Check(i.GetDescription() != "", "builtin-info", "%T is not described", ctrl)
		c.Ev("builtin-info", "%s", id)
		if _, ok := ctrl.(*bus_api_controller.Controller); ok {
			return // it would listen
		}
		rel, err := b.AddController(ctx, ctrl, nil)
		if !c.Check(err == nil, "builtin-add", "%v", err) {
			return
		}
		n := 0
		for _, x := range b.GetControllers() {
			if x.GetControllerInfo().EqualVT(i) {
				n++
			}
		}
		c.Check(n > 0, "builtin-listed", "%s is not listed", id)
		rel()
		c.Wait()
	}
	ver := semver.Version{Major: uint64(c.Int(4)), Minor: uint64(c.Int(30)), Patch: uint64(c.Int(300))}
	rid := fmt.Sprintf("verif-%d", c.Int(100))
	res := resolver.NewController(c.Le, b, &fres{rid, ver})
	c.Check(res.GetControllerID() == "controllerbus/resolver/"+rid, "builtin-info", "the controller of resolver %s has id %q", rid, res.GetControllerID())
	says(res, "controllerbus/resolver/"+rid, ver.String())
	ld, err := loader.NewController(c.Le, b)
	if !c.Check(err == nil, "builtin-new", "%v", err) {
		return
	}
	says(ld, loader.ControllerID, loader.Version.String())
	says(bus_bridge.NewBusBridge(b, func(directive.Instance) (bool, error) { return false, nil }), bus_bridge.ControllerID, bus_bridge.Version.String())

	// the factories
	addr := fmt.Sprintf("127.0.0.1:%d", c.Int(5)+1)
	apiConf := func() config.Config {
		return &bus_api_controller.Config{ListenAddr: addr, BusApiConfig: &bus_api.Config{EnableExecController: c.P(50)}}
	}
	for _, x := range []struct {
		f        ctlFactory
		id, conf string
		ver      semver.Version
		mk       func() config.Config
	}{
		{configset_controller.NewFactory(b), configset_controller.ControllerID, configset_controller.ConfigID, configset_controller.Version, func() config.Config { return &configset_controller.Config{} }},
		{bus_api_controller.NewFactory(b), bus_api_controller.ControllerID, bus_api_controller.ConfigID, bus_api_controller.Version, apiConf},
	} {
		c.Check(x.f.GetControllerID() == x.id && x.f.GetConfigID() == x.conf && x.f.GetVersion().EQ(x.ver), "builtin-factory", "%T is for %q %q %v, not %q %q %v", x.f, x.f.GetControllerID(), x.f.GetConfigID(), x.f.GetVersion(), x.id, x.conf, x.ver)
		empty := x.f.ConstructConfig()
		if !c.Check(empty != nil && empty.GetConfigID() == x.conf, "builtin-config", "%T constructs the config %v", x.f, empty) {
			continue
		}
		conf := x.mk()
		c.Check(conf.GetConfigID() == x.conf && conf.Validate() == nil, "builtin-config", "the config of %s: %q %v", x.id, conf.GetConfigID(), conf.Validate())
		// the codecs
		data, err := conf.MarshalVT()
		c.Check(err == nil && empty.UnmarshalVT(data) == nil && empty.EqualsConfig(conf) && conf.EqualsConfig(empty), "builtin-config", "%v decoded is %v", conf, empty)
		js, err := conf.MarshalJSON()
		o := x.f.ConstructConfig()
		c.Check(err == nil && o.UnmarshalJSON(js) == nil && o.EqualsConfig(conf), "builtin-config", "%v of %s decoded is %v", conf, js, o)
		c.Check(!conf.EqualsConfig(&tconf{ID: x.conf}), "builtin-config", "%T equals another type", conf)
		ctrl, err := x.f.Construct(ctx, conf, controller.ConstructOpts{Logger: c.Le})
		if !c.Check(err == nil && ctrl != nil, "builtin-construct", "%v of %s: %v %v", conf, x.id, ctrl, err) {
			continue
		}
		says(ctrl, x.id, x.ver.String())
		_ = ctrl.Close()
	}
	// equality
	mk := func() *bus_api_controller.Config {
		if c.P(20) {
			return nil
		}
		cc := &bus_api_controller.Config{}
		if c.P(70) {
			cc.ListenAddr = []string{"", "a", "b"}[c.Int(3)]
		}
		if c.P(60) {
			cc.BusApiConfig = &bus_api.Config{EnableExecController: c.P(50)}
		}
		return cc
	}
	p, q := mk(), mk()
	eq := (p == nil) == (q == nil)
	if p != nil && q != nil {
		eq = p.ListenAddr == q.ListenAddr && (p.BusApiConfig == nil) == (q.BusApiConfig == nil) && p.BusApiConfig.GetEnableExecController() == q.BusApiConfig.GetEnableExecController()
	}
	c.Check(config.IsEqualVT(p, q) == eq, "builtin-equal", "IsEqualVT(%v, %v) = %v", p, q, !eq)
	c.Check(config.EqualsConfig(p, config.Config(q)) == eq, "builtin-equal", "EqualsConfig(%v, %v) = %v", p, q, !eq)
	c.Ev("builtin-equal", "%v", eq)
	cancel()
	c.Wait()
}

// ctlFactory is a factory which tells the id of its controllers.
type ctlFactory interface {
	controller.Factory
	GetControllerID() string
}
