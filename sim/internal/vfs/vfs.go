// Package vfs is the simulated file system: a tree of inodes in memory, with the bookkeeping needed to decide
// what survives a power loss.
package vfs

import (
	"crypto/sha256"
	"encoding/hex"
	"path"
	"sort"
	"strings"
	"syscall"
)

// Inode is a file, directory or symbolic link.
type Inode struct {
	Ino    uint64
	Mode   uint32 // including type bits
	Data   []byte
	Kids   map[string]*Inode
	Target string
	Mtime  int64
	Parent *Inode
	// Power loss bookkeeping: content made durable by a sync.
	Synced   []byte
	IsSynced bool
}

// IsDir tells if the inode is a directory.
func (i *Inode) IsDir() bool { return i.Mode&syscall.S_IFMT == syscall.S_IFDIR }

// IsReg tells if the inode is a regular file.
func (i *Inode) IsReg() bool { return i.Mode&syscall.S_IFMT == syscall.S_IFREG }

// IsLink tells if the inode is a symbolic link.
func (i *Inode) IsLink() bool { return i.Mode&syscall.S_IFMT == syscall.S_IFLNK }

// FS is a file system.
type FS struct {
	Root *Inode
	next uint64
}

// New creates an empty file system.
func New() *FS {
	f := &FS{next: 1}
	f.Root = f.newInode(syscall.S_IFDIR | 0o755)
	f.Root.Parent = f.Root
	return f
}

func (f *FS) newInode(mode uint32) *Inode {
	f.next++
	n := &Inode{Ino: f.next, Mode: mode}
	if n.IsDir() {
		n.Kids = map[string]*Inode{}
	}
	return n
}

// Clone makes a deep copy. Data slices are shared: they are copied on write.
func (f *FS) Clone() *FS {
	c := &FS{next: f.next}
	seen := map[*Inode]*Inode{}
	var cp func(n, parent *Inode) *Inode
	cp = func(n, parent *Inode) *Inode {
		if s, ok := seen[n]; ok {
			return s
		}
		m := *n
		m.Parent = parent
		seen[n] = &m
		if n.Kids != nil {
			m.Kids = make(map[string]*Inode, len(n.Kids))
			for k, v := range n.Kids {
				m.Kids[k] = cp(v, &m)
			}
		}
		return &m
	}
	c.Root = cp(f.Root, nil)
	c.Root.Parent = c.Root
	return c
}

// Lookup walks the path from dir. If nofollow is set a final symbolic link is returned as such. The returned
// parent and name describe the last component (also when it does not exist).
func (f *FS) Lookup(dir *Inode, p string, nofollow bool) (n, parent *Inode, name string, e syscall.Errno) {
	return f.lookup(dir, p, nofollow, 0)
}

func (f *FS) lookup(dir *Inode, p string, nofollow bool, depth int) (n, parent *Inode, name string, e syscall.Errno) {
	if depth > 20 {
		return nil, nil, "", syscall.ELOOP
	}
	if p == "" {
		return nil, nil, "", syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, nil, "", syscall.EINVAL
	}
	cur := dir
	if p[0] == '/' {
		cur = f.Root
	}
	parts := []string{}
	for _, s := range strings.Split(p, "/") {
		if s != "" && s != "." {
			parts = append(parts, s)
		}
	}
	mustDir := strings.HasSuffix(p, "/") || strings.HasSuffix(p, "/.")
	if len(parts) == 0 {
		return cur, cur.Parent, ".", 0
	}
	for i, s := range parts {
		last := i == len(parts)-1
		if !cur.IsDir() {
			return nil, nil, "", syscall.ENOTDIR
		}
		if len(s) > 255 {
			return nil, nil, "", syscall.ENAMETOOLONG
		}
		if s == ".." {
			cur = cur.Parent
			if last {
				return cur, cur.Parent, "..", 0
			}
			continue
		}
		kid, ok := cur.Kids[s]
		if !ok {
			if last {
				return nil, cur, s, syscall.ENOENT
			}
			return nil, nil, "", syscall.ENOENT
		}
		if kid.IsLink() && (!last || !nofollow || mustDir) {
			rest := strings.Join(parts[i+1:], "/")
			t := kid.Target
			if rest != "" {
				t = t + "/" + rest
			}
			return f.lookup(cur, t, nofollow, depth+1)
		}
		if last {
			if mustDir && !kid.IsDir() {
				return nil, nil, "", syscall.ENOTDIR
			}
			return kid, cur, s, 0
		}
		cur = kid
	}
	return nil, nil, "", syscall.ENOENT
}

// PathOf gives the absolute path of a directory.
func (f *FS) PathOf(n *Inode) string {
	var parts []string
	for n != f.Root {
		p := n.Parent
		if p == nil {
			return "(detached)"
		}
		found := ""
		for k, v := range p.Kids {
			if v == n && (found == "" || k < found) {
				found = k
			}
		}
		if found == "" {
			return "(detached)"
		}
		parts = append([]string{found}, parts...)
		n = p
	}
	return "/" + strings.Join(parts, "/")
}

// Create adds a child.
func (f *FS) Create(parent *Inode, name string, mode uint32) *Inode {
	n := f.newInode(mode)
	n.Parent = parent
	parent.Kids[name] = n
	return n
}

// MkdirAll creates directories from the outside of the simulation.
func (f *FS) MkdirAll(p string) *Inode {
	cur := f.Root
	for _, s := range strings.Split(path.Clean(p), "/") {
		if s == "" || s == "." {
			continue
		}
		k := cur.Kids[s]
		if k == nil {
			k = f.Create(cur, s, syscall.S_IFDIR|0o755)
		}
		cur = k
	}
	return cur
}

// WriteFile writes a file from the outside of the simulation.
func (f *FS) WriteFile(p string, data []byte, perm uint32) {
	d := f.MkdirAll(path.Dir(p))
	n := d.Kids[path.Base(p)]
	if n == nil || !n.IsReg() {
		n = f.Create(d, path.Base(p), syscall.S_IFREG|perm)
	}
	n.Data = append([]byte(nil), data...)
	n.Synced, n.IsSynced = n.Data, true
}

// Touch sets the modification time of a file.
func (f *FS) Touch(p string, t int64) {
	if n := f.Get(p); n != nil {
		n.Mtime = t
	}
}

// Get returns the inode at the given absolute path, or nil.
func (f *FS) Get(p string) *Inode {
	n, _, _, e := f.Lookup(f.Root, p, true)
	if e != 0 {
		return nil
	}
	return n
}

// WriteAt writes into a file, always in a fresh slice when the old one may be shared.
func (n *Inode) WriteAt(p []byte, off int64) {
	end := int(off) + len(p)
	d := make([]byte, max(end, len(n.Data)))
	copy(d, n.Data)
	copy(d[off:], p)
	n.Data = d
	n.IsSynced = false
}

// Append adds data at the end; the capacity is never shared between clones.
func (n *Inode) Append(p []byte) {
	n.Data = append(n.Data[:len(n.Data):len(n.Data)], p...)
	n.IsSynced = false
}

// Resize changes the length.
func (n *Inode) Resize(l int64) {
	d := make([]byte, l)
	copy(d, n.Data)
	n.Data = d
	n.IsSynced = false
}

// Files lists every entry below dir: regular files with content, directories with a trailing slash and nil,
// links with "-> target".
func (f *FS) Files(dir string) map[string][]byte {
	out := map[string][]byte{}
	n := f.Get(dir)
	if n == nil {
		return out
	}
	var walk func(n *Inode, p string)
	walk = func(n *Inode, p string) {
		switch {
		case n.IsDir():
			if p != "" {
				out[p+"/"] = nil
			}
			for k, v := range n.Kids {
				q := k
				if p != "" {
					q = p + "/" + k
				}
				walk(v, q)
			}
		case n.IsLink():
			out[p] = []byte("-> " + n.Target)
		default:
			out[p] = n.Data
		}
	}
	walk(n, "")
	return out
}

// Hash of everything below dir.
func (f *FS) Hash(dir string) string { return HashFiles(f.Files(dir)) }

// HashFiles hashes a listing.
func HashFiles(m map[string][]byte) string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	h := sha256.New()
	for _, k := range keys {
		h.Write([]byte(k))
		h.Write([]byte{0})
		h.Write(m[k])
		h.Write([]byte{1})
	}
	return hex.EncodeToString(h.Sum(nil))[:16]
}
