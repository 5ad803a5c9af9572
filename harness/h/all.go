// Package h holds the harnesses. Each is an ordinary function over the public
// API of the module; inputs come from package nd.
package h

// All maps harness names to functions for native runs.
var All = map[string]func(){}
