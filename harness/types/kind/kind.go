// Package kind is one of two of this name.
package kind

type Kind int8

// Pair is kept as JSON.
type Pair[T any] struct {
	K Kind `json:"k"`
	V T    `json:"v"`
}
