// Package snqkmeld stands in for the creator of that name, whose module is not available offline.
// Only the name of the handler is used by the packages under test.
package snqkmeld

const Name = "snqk/meld"
