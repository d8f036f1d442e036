// Package option stands in for the part of google.golang.org/api that cmd/stl2svx uses.
package option

import "golang.org/x/oauth2"

type ClientOption interface{}

func WithTokenSource(s oauth2.TokenSource) ClientOption { return s }
