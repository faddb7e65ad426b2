package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"

	"github.com/pojntfx/stfs/pkg/compression"
	"github.com/spf13/afero"
)

func sortStrings(s []string) { sort.Strings(s) }

// dev runs the ops of a file of JSON lines and shows the tree, the rows and the records of the tape.
func dev(args []string) {
	base, err := scratch()
	must(err)
	defer removeScratch(base)
	b, err := os.ReadFile(args[0])
	must(err)
	var f struct {
		Cfg Cfg
		Ops []Op
	}
	must(json.Unmarshal(b, &f))
	if f.Cfg.RecordSize == 0 {
		f.Cfg.RecordSize = 20
		f.Cfg.Level = "fastest"
	}
	r, err := NewRig(f.Cfg, base, Opts{})
	must(err)
	for _, op := range f.Ops {
		res := Exec(r, op)
		fmt.Println(op, "->", res.Class, res.Names, res.Acts)
	}
	show := func(r *Rig) {
		s, err := FullSnap(r.FS)
		fmt.Println("error:", err)
		for _, p := range s.Paths() {
			fmt.Println("  ", p, s[p])
		}
		rows, err := r.Rows()
		fmt.Println("rows:", err)
		for _, h := range rows {
			fmt.Printf("   %q link=%q type=%d pos=%d,%d last=%d,%d size=%d\n", h.Name, h.Linkname, h.Typeflag, h.Record, h.Block, h.Lastknownrecord, h.Lastknownblock, h.Size)
		}
	}
	show(r)
	ls, sc, err := r.Logicals(r.TapeBytes())
	fmt.Println("records:", err, sc.Problems, sc.Trailers)
	for _, l := range ls {
		fmt.Printf("   @%d %s %q link=%q type=%c replaces=%q/%v size=%d\n", l.Off, l.Action, l.Name, l.Link, l.Type, l.ReplacesName, l.ReplacesContent, l.Size)
	}
	o, err := r.Rebuilt()
	fmt.Println("rebuilt:", err)
	if err == nil {
		show(o)
	}
}

func compressFor(cfg Cfg, w io.Writer) (ioFlusher, error) {
	return compression.Compress(w, cfg.Comp, cfg.Level, !cfg.Tape, cfg.RecordSize)
}

type ioFlusher interface {
	io.WriteCloser
	Flush() error
}

// writeAll creates a file with the content.
func writeAll(f afero.Fs, p string, b []byte) error {
	w, err := f.Create(p)
	if err != nil {
		return err
	}
	if len(b) > 0 {
		if _, err := w.Write(b); err != nil {
			_ = w.Close()
			return err
		}
	}
	return w.Close()
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	must(err)
	return b
}
