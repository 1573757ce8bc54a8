// Package licproto is what the explorer and the license helper say to each other.
package licproto

type Query struct {
	Path    string
	Content []byte
	Fresh   bool
}

type Result struct {
	Language, Skip, License string
	Confidence              float32
}
