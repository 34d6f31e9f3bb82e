package props

import "verifsim/core"

// C18: packages. See lang_pkg.go.

func init() {
	core.Register(&core.Property{
		ID: "C18", Level: "exploration",
		Rule:      "A run is a seeded history of texts in one interpreter whose programs make packages of seeded shapes (members that are values, functions, arrays, hashes, hashes holding packages and packages, to depth four, with names that begin with upper and lower case letters of several scripts and with other runes), name them, alias them, pass and store them, replace them, and reach into them through dot paths by every route: operands, bindings, arguments, calls, infix and prefix assignment, compound assignment, selections, from the top level, other packages, functions, closures, macros, eval, lazy arguments and host call-backs; package functions change private state and are called from outside; the simulated host fails inside package bodies and functions. Outcome, host calls and every binding with all members of all packages reachable from it are compared after each text with a reference evaluator that knows each member's visibility. In the routes scenario every member of the packages has a value that occurs nowhere else, and paths are put into some 200 forms (builtins, selections, assignments, macros, templates, lazy arguments, eval of built forms, loops, printing), in contexts outside the package: what comes out may not hold the value of a private member, all members are compared with a model after each text, public members are read and written, and private ones are changed by code inside called from outside. Non-trivial: a value or a host call was observed. Distinct: by event log. States: distinct host-call histories.",
		QuickRuns: 120000, ThorRuns: 4000000,
		Assumptions: []string{
			"a member is private unless its name begins with an upper-case letter; the keys of a public hash are data, whatever their case; a nested package may be read and traversed under any name, but only replaced under a public one",
			"what encloses a package shows through a path into it (p.x where x is bound around the package): whether a public name so found is given is left open, a private one must be refused",
			"a refused read used as a plain value may give the path itself as a symbol; the generator uses such paths as operands, where it has to be an error",
			"the reference evaluator (lang_ref.go, lang_pkg.go) is the definition of the language",
		},
		Components: map[string]interface{}{
			"real": []string{
				"zygo parser (prefix and infix), generator, VM, scopes, closures, path walkers, builtins, env.Apply and env.EvalString",
			},
			"simulated": []string{
				"host functions hi hb hs ha hl hn hx hcall hcatch hkeep hpoke: what they reply, when they fail, panic or call back is decided by the seed",
				"Go map iteration order and hash seeds",
			},
		},
		Scenarios: []*core.Scenario{
			{Prop: "C18", Name: "routes", Weight: 4, Run: runRoutes},
			{Prop: "C18", Name: "paths", Weight: 3, Run: func(t *core.T) {
				langRun(t, genCfg{pool: 2, size: 70, depth: 5, errNum: 1, host: true, pkgs: true, texts: 8}, 1, 8, nil)
			}},
			{Prop: "C18", Name: "closures", Weight: 2, Run: func(t *core.T) {
				langRun(t, genCfg{pool: 2, size: 80, depth: 5, host: true, scopey: true, keep: true, calls: true, pkgs: true}, 1, 12, nil)
			}},
			{Prop: "C18", Name: "macros", Weight: 1, Run: func(t *core.T) {
				langRun(t, genCfg{pool: 2, size: 70, depth: 5, host: true, macros: true, pkgs: true}, 1, 12, nil)
			}},
			{Prop: "C18", Name: "lazy", Weight: 1, Run: func(t *core.T) {
				langRun(t, genCfg{pool: 2, size: 70, depth: 5, host: true, lazy: true, keep: true, calls: true, pkgs: true}, 1, 12, nil)
			}},
		},
	})
}
