package simos

import (
	"encoding/gob"
	"os"
	"path"
	"sort"
)

type imageEntry struct {
	Path string
	Dir  bool
	Data []byte
}

// SaveImage writes the file system to a real file.
func (k *Kernel) SaveImage(to string) error {
	var entries []imageEntry
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		if n.Special != "" {
			return
		}
		entries = append(entries, imageEntry{p, n.Dir, n.Data})
		if n.Dir {
			var names []string
			for name := range n.Names {
				names = append(names, name)
			}
			sort.Strings(names)
			for _, name := range names {
				rec(path.Join(p, name), n.Names[name])
			}
		}
	}
	rec("/", k.root)
	f, err := os.Create(to)
	if err != nil {
		return err
	}
	defer f.Close()
	return gob.NewEncoder(f).Encode(entries)
}

// LoadImage adds the files of an image.
func (k *Kernel) LoadImage(from string) error {
	f, err := os.Open(from)
	if err != nil {
		return err
	}
	defer f.Close()
	var entries []imageEntry
	if err := gob.NewDecoder(f).Decode(&entries); err != nil {
		return err
	}
	for _, e := range entries {
		if e.Dir {
			k.MkdirAll(e.Path)
		} else {
			k.WriteFile(e.Path, e.Data)
		}
	}
	return nil
}
