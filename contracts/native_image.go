package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/google/go-containerregistry/pkg/name"
	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"github.com/google/go-containerregistry/pkg/v1/empty"
	"github.com/google/go-containerregistry/pkg/v1/mutate"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
)

// TestVerifMainHelper runs main() with given arguments, stdout going to a file (used by harnesses as a subprocess).
func TestVerifMainHelper(t *testing.T) {
	raw := os.Getenv("VERIF_MAIN_ARGS")
	if raw == "" {
		t.Skip("helper")
	}
	var args []string
	if err := json.Unmarshal([]byte(raw), &args); err != nil {
		t.Fatal(err)
	}
	out, err := os.Create(os.Getenv("VERIF_MAIN_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	os.Args = append([]string{"ocibuild"}, args...)
	os.Stdout = out
	main()
	out.Close()
	os.Exit(0)
}

func verifRunMain(dir string, args ...string) (outfile string, stderr string, err error) {
	raw, _ := json.Marshal(args)
	outfile = filepath.Join(dir, "out")
	cmd := exec.Command(os.Args[0], "-test.run", "^TestVerifMainHelper$")
	cmd.Env = append(os.Environ(), "VERIF_MAIN_ARGS="+string(raw), "VERIF_MAIN_OUT="+outfile)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	err = cmd.Run()
	return outfile, eb.String(), err
}

func genWords(r *rand.Rand, words ...string) []string {
	var ret []string
	for i := r.Intn(4); i > 0; i-- {
		ret = append(ret, words[r.Intn(len(words))])
	}
	return ret
}

func genBaseConfig(r *rand.Rand) ociv1.Config {
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	c := ociv1.Config{
		Env:         genWords(r, "A=1", "B=2", "PATH=/bin", "A="),
		Entrypoint:  genWords(r, "/bin/sh", "-c", "x y"),
		Cmd:         genWords(r, "run", "-v", ""),
		WorkingDir:  pick("", "/", "/srv"),
		User:        pick("", "root", "1000:1000"),
		Hostname:    pick("", "h"),
		Domainname:  pick("", "d"),
		StopSignal:  pick("", "SIGTERM"),
		Tty:         r.Intn(2) == 0,
		OpenStdin:   r.Intn(2) == 0,
		ArgsEscaped: r.Intn(2) == 0,
		OnBuild:     genWords(r, "RUN x"),
		Shell:       genWords(r, "/bin/bash"),
	}
	if r.Intn(2) == 0 {
		c.Labels = map[string]string{"l": pick("1", "2")}
	}
	if r.Intn(2) == 0 {
		c.Volumes = map[string]struct{}{"/data": {}}
	}
	if r.Intn(2) == 0 {
		c.ExposedPorts = map[string]struct{}{"80/tcp": {}}
	}
	return c
}

func TestVerif_C25_imagebuild(t *testing.T) {
	h := newVH(t, "C25", "imagebuild", "a case counts when the real `image build` command ran on a generated base image and flag list; the written image's config is compared field by field", 120)
	defer h.done()
	dir := t.TempDir()
	layer := filepath.Join(dir, "layer.tar")
	var lb bytes.Buffer
	tw := tar.NewWriter(&lb)
	_ = tw.WriteHeader(&tar.Header{Name: "f", Typeflag: tar.TypeReg, Mode: 0o644, Size: 1})
	_, _ = tw.Write([]byte("x"))
	_ = tw.Close()
	if err := os.WriteFile(layer, lb.Bytes(), 0o644); err != nil {
		t.Fatal(err)
	}
	for h.more() {
		r := h.r
		base := genBaseConfig(r)
		img, err := mutate.Config(empty.Image, base)
		if err != nil {
			t.Fatal(err)
		}
		tag, _ := name.NewTag("example.com/base:y")
		basefile := filepath.Join(dir, "base.tar")
		bf, _ := os.Create(basefile)
		if err := ociv1tarball.Write(tag, img, bf); err != nil {
			t.Fatal(err)
		}
		bf.Close()
		want := base
		args := []string{"image", "build", "--tag=example.com/out:t"}
		if r.Intn(4) > 0 {
			args = append(args, "--base="+basefile)
		} else {
			want = ociv1.Config{}
		}
		var env, ep, cm []string
		clear := r.Intn(3) == 0
		if clear {
			args = append(args, []string{"-E", "--config.Env.clear"}[r.Intn(2)])
		}
		if r.Intn(2) == 0 {
			env = genWords(r, "A=9", "C=3", "D", "E=a,b", "A=1")
			for _, x := range env {
				args = append(args, "--config.Env.append="+x)
			}
		}
		if r.Intn(2) == 0 {
			ep = genWords(r, "/init", "--", "a,b", "")
			for _, x := range ep {
				args = append(args, "--config.Entrypoint="+x)
			}
		}
		if r.Intn(2) == 0 {
			cm = genWords(r, "serve", "-p", "a b", "")
			for _, x := range cm {
				args = append(args, "--config.Cmd="+x)
			}
		}
		wd := []string{"", "", "/w", "rel"}[r.Intn(4)]
		if wd != "" {
			args = append(args, "--config.WorkingDir="+wd)
		}
		args = append(args, layer)
		in := fmt.Sprintf("base %+v args %q", base, args)
		h.tick(in)
		if clear {
			want.Env = nil
		}
		want.Env = append(append([]string(nil), want.Env...), env...)
		if len(ep) > 0 {
			want.Entrypoint = ep
		}
		if len(cm) > 0 {
			want.Cmd = cm
		}
		if wd != "" {
			want.WorkingDir = wd
		}
		out, stderr, err := verifRunMain(dir, args...)
		if err != nil {
			h.fail("the image is built", in, "%v: %s", err, stderr)
			continue
		}
		got, err := ociv1tarball.ImageFromPath(out, nil)
		if err != nil {
			h.fail("the image is readable", in, "%v", err)
			continue
		}
		cf, err := got.ConfigFile()
		if err != nil {
			h.fail("the image has a config", in, "%v", err)
			continue
		}
		gv, wv := reflect.ValueOf(cf.Config), reflect.ValueOf(want)
		for i := 0; i < gv.NumField(); i++ {
			g, w := fmt.Sprintf("%#v", gv.Field(i).Interface()), fmt.Sprintf("%#v", wv.Field(i).Interface())
			if k := gv.Field(i).Kind(); (k == reflect.Slice || k == reflect.Map) && gv.Field(i).Len() == 0 && wv.Field(i).Len() == 0 {
				continue
			}
			if strings.HasPrefix(g, "(*") {
				continue
			}
			if g != w {
				h.fail("config field "+gv.Type().Field(i).Name, in, "got %s want %s", g, w)
			}
		}
		ls, err := got.Layers()
		if err != nil || len(ls) != 1 {
			h.fail("the given layer is in the image", in, "%v %v", ls, err)
		}
	}
}

func init() {
	gf := func(r *rand.Rand) configFlags {
		f := configFlags{envClear: r.Intn(2) == 0, envAppend: genWords(r, "A=1", "B=2"), workingDir: []string{"", "/w"}[r.Intn(2)]}
		if r.Intn(2) == 0 {
			f.entrypoint = append([]string{}, genWords(r, "e", "f")...)
		}
		if r.Intn(2) == 0 {
			f.cmd = append([]string{}, genWords(r, "c", "d")...)
		}
		return f
	}
	two := func(r *rand.Rand) []interface{} { return []interface{}{gf(r), genBaseConfig(r)} }
	verifGens["contract_ApplyTo_env"] = two
	verifGens["contract_ApplyTo_replaced"] = two
	verifGens["contract_ApplyTo_frame"] = two
	verifGens["contract_ApplyTo_none"] = func(r *rand.Rand) []interface{} { return []interface{}{genBaseConfig(r)} }
}
