// Package unit is in a directory of another name.
package unit

type Unit float64
