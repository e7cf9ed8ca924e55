// Package kind is one of two of this name.
package kind

type Kind string
