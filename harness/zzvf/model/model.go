// Package model holds stand-ins the symbolic interpreter uses for parts of the environment.
package model

import (
	"io/fs"
	"time"
)

// FileInfo is what the virtual file system returns from Stat.
type FileInfo struct {
	N string
	S int64
	D bool
}

func (f FileInfo) Name() string { return f.N }
func (f FileInfo) Size() int64  { return f.S }
func (f FileInfo) Mode() fs.FileMode {
	if f.D {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (f FileInfo) ModTime() time.Time { return time.Time{} }
func (f FileInfo) IsDir() bool        { return f.D }
func (f FileInfo) Sys() any           { return nil }

// DirEntry is what the virtual file system returns from ReadDir.
type DirEntry struct {
	N string
	S int64
	D bool
}

func (f DirEntry) Name() string { return f.N }
func (f DirEntry) IsDir() bool  { return f.D }
func (f DirEntry) Type() fs.FileMode {
	if f.D {
		return fs.ModeDir
	}
	return 0
}
func (f DirEntry) Info() (fs.FileInfo, error) { return FileInfo(f), nil }
