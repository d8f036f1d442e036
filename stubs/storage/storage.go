// Package storage stands in for the Google Cloud Storage client, which does not
// compile with the gRPC version that stldice pins. A bucket is a directory below
// $STUB_STORAGE. As in the real service an object comes into existence when its
// writer is closed, and not before.
package storage

import (
	"bytes"
	"context"
	"errors"
	"os"
	"path/filepath"

	"google.golang.org/api/option"
)

const ScopeFullControl = "https://www.googleapis.com/auth/devstorage.full_control"

type (
	ACLEntity string
	ACLRole   string
	ACLRule   struct {
		Entity ACLEntity
		Role   ACLRole
	}
)

const (
	AllUsers   ACLEntity = "allUsers"
	RoleReader ACLRole   = "READER"
)

type Client struct{}

func NewClient(ctx context.Context, opts ...option.ClientOption) (*Client, error) {
	if os.Getenv("STUB_STORAGE") == "" {
		return nil, errors.New("STUB_STORAGE is not set")
	}
	return &Client{}, nil
}

func (c *Client) Close() error { return nil }

func (c *Client) Bucket(name string) *BucketHandle { return &BucketHandle{name: name} }

type BucketHandle struct{ name string }

func (b *BucketHandle) Object(name string) *ObjectHandle { return &ObjectHandle{b: b, name: name} }

type ObjectHandle struct {
	b    *BucketHandle
	name string
}

type ObjectAttrs struct {
	ACL          []ACLRule
	ContentType  string
	CacheControl string
}

type Writer struct {
	ObjectAttrs
	o   *ObjectHandle
	ctx context.Context
	buf bytes.Buffer
}

func (o *ObjectHandle) NewWriter(ctx context.Context) *Writer { return &Writer{o: o, ctx: ctx} }

func (w *Writer) Write(p []byte) (int, error) {
	if err := w.ctx.Err(); err != nil {
		return 0, err
	}
	return w.buf.Write(p)
}

// Close creates the object. It fails if the bucket does not exist.
func (w *Writer) Close() error {
	if err := w.ctx.Err(); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(os.Getenv("STUB_STORAGE"), w.o.b.name, w.o.name), w.buf.Bytes(), 0o644)
}
