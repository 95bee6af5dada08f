package main

import (
	"reflect"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
)

func specSameStrings(a, b []string) bool {
	return len(a) == len(b) && (a == nil) == (b == nil) && forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

//gocv:contract C25 configFlags.ApplyTo
func contract_ApplyTo_env(flags configFlags, before ociv1.Config) {
	after := before
	flags.ApplyTo(&after)
	n := len(before.Env)
	if flags.envClear {
		n = 0
	}
	ensures("the base's variables (unless cleared) plus the given ones", len(after.Env) == n+len(flags.envAppend))
	ensures("the base's variables stay in place", forall(0, n, func(i int) bool { return after.Env[i] == before.Env[i] }))
	ensures("the given variables follow in order", forall(0, len(flags.envAppend), func(i int) bool { return after.Env[n+i] == flags.envAppend[i] }))
}

//gocv:contract C25 configFlags.ApplyTo
func contract_ApplyTo_replaced(flags configFlags, before ociv1.Config) {
	after := before
	flags.ApplyTo(&after)
	ensures("a given entrypoint replaces", implies(flags.entrypoint != nil, specSameStrings(after.Entrypoint, flags.entrypoint)))
	ensures("no entrypoint given: kept", implies(flags.entrypoint == nil, specSameStrings(after.Entrypoint, before.Entrypoint)))
	ensures("a given command replaces", implies(flags.cmd != nil, specSameStrings(after.Cmd, flags.cmd)))
	ensures("no command given: kept", implies(flags.cmd == nil, specSameStrings(after.Cmd, before.Cmd)))
	ensures("a given working directory replaces", implies(flags.workingDir != "", after.WorkingDir == flags.workingDir))
	ensures("no working directory given: kept", implies(flags.workingDir == "", after.WorkingDir == before.WorkingDir))
}

//gocv:contract C25 configFlags.ApplyTo
func contract_ApplyTo_frame(flags configFlags, before ociv1.Config) {
	after := before
	flags.ApplyTo(&after)
	ensures("plain fields kept", after.AttachStderr == before.AttachStderr && after.AttachStdin == before.AttachStdin && after.AttachStdout == before.AttachStdout &&
		after.Domainname == before.Domainname && after.Hostname == before.Hostname && after.Image == before.Image &&
		after.OpenStdin == before.OpenStdin && after.StdinOnce == before.StdinOnce && after.Tty == before.Tty && after.User == before.User &&
		after.MacAddress == before.MacAddress && after.StopSignal == before.StopSignal && after.ArgsEscaped == before.ArgsEscaped && after.NetworkDisabled == before.NetworkDisabled)
	ensures("healthcheck kept", after.Healthcheck == before.Healthcheck)
	ensures("lists kept", specSameStrings(after.OnBuild, before.OnBuild) && specSameStrings(after.Shell, before.Shell))
	ensures("labels kept", identicalLabels(after.Labels, before.Labels))
	ensures("volumes kept", identicalNames(after.Volumes, before.Volumes))
	ensures("ports kept", identicalNames(after.ExposedPorts, before.ExposedPorts))
}

func identicalLabels(a, b map[string]string) bool  { return reflect.DeepEqual(a, b) }
func identicalNames(a, b map[string]struct{}) bool { return reflect.DeepEqual(a, b) }

//gocv:lemma C25
func contract_ApplyTo_none(before ociv1.Config) {
	after := before
	configFlags{}.ApplyTo(&after)
	ensures("no flag: environment untouched", specSameStrings(after.Env, before.Env))
	ensures("no flag: entrypoint untouched", specSameStrings(after.Entrypoint, before.Entrypoint))
	ensures("no flag: command untouched", specSameStrings(after.Cmd, before.Cmd))
	ensures("no flag: working directory untouched", after.WorkingDir == before.WorkingDir)
}
