package zzconfig

import (
	"os"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	grpcfed "github.com/mercari/grpc-federation/grpc/federation"
	"github.com/mercari/grpc-federation/vx"
)

// vxRefused asserts that err is the failure of a validation.
func vxRefused(err error, text string) {
	vx.Reach("refused")
	if err == nil {
		vx.Fail("the service starts although a validation of its variables fails: " + text)
	}
	st, ok := grpcfed.GRPCStatusFromError(err)
	vx.Assert(ok && st.Code() == grpcfed.InternalCode, "code of a failed validation of the service's variables")
	vx.Assert(st.Message() == text, "text of a failed validation of the service's variables")
}

// Starting the service with every choice of present and absent variables.
func VX_C29_Present() {
	vx.MustReach("ok", "missing")
	vx.Delays(0)
	vxEnv("OFF", "x")
	text, num, must := "d`\"", int64(0), ""
	if vx.Bool("text") {
		text = vx.StringN("textval", 1)
		os.Setenv("TEXT", text)
	}
	if vx.Bool("num") {
		num = 7
		os.Setenv("VX_NUM", "7")
	}
	if vx.Bool("own") {
		os.Setenv("NUM", "8") // the variable has another name
	}
	there := vx.Bool("must")
	if there {
		must = vx.String("mustval", 1)
		os.Setenv("MUST", must)
	}
	svc, err := NewConfig(ConfigConfig{})
	vx.Assert((err == nil) == there, "the service starts exactly if its required environment variables are there")
	if err != nil {
		vx.Reach("missing")
		return
	}
	vx.Reach("ok")
	for range 2 {
		res := vxGet(svc)
		vx.Assert(res.Text == text && res.Num == num && res.Must == must, "environment variables are the value read, the alternative or the default")
		vx.Assert(res.Off == "" && !res.Flag && len(res.Words) == 0 && !res.Has && res.Small == 0 && !res.Long, "absent and ignored environment variables are empty")
		vx.Assert(res.Next == num+1 && res.Cond == "" && res.After == "none" && len(res.Lens) == 0 && len(res.Reds) == 0 && !res.Red, "variables of the service")
		vx.Assert(res.Shadow == "shadow" && res.Deep.Cond == text, "variables of the service in messages")
	}
}

// vxFull is an environment in which everything is there but what the harness varies.
func vxFull(kv ...string) { vxEnv(append([]string{"MUST", "m", "OFF", "x"}, kv...)...) }

func vxLen(quick, thorough int) int {
	if vx.Thorough() {
		return thorough
	}
	return quick
}

// Any text for a number.
func VX_C29_Number() {
	vx.MustReach("ok", "unreadable", "refused")
	vx.Delays(0)
	n := vx.String("num", vxLen(2, 3))
	flag := vx.Bool("flag")
	vxFull("VX_NUM", n, "FLAG", strconv.FormatBool(flag), "TEXT", "")
	svc, err := vxRestart()
	want, perr := strconv.ParseInt(n, 0, 64)
	if perr != nil {
		vx.Assert(err != nil, "the service starts only if its environment can be read")
		vx.Reach("unreadable")
		return
	}
	if want == 99 {
		vxRefused(err, "hundred ")
		return
	}
	vxRequire(err)
	vx.Reach("ok")
	res := vxGet(svc)
	vx.Assert(res.Num == want && res.Next == want+1 && res.Text == "", "number of the environment and the variable computed from it")
	vx.Assert(svc.svcVar.Next == want+1, "variable of the service")
}

// The validations of the variables, in order, with their conditions.
func VX_C29_Validations() {
	vx.MustReach("ok", "refused", "overflow")
	vx.Delays(0)
	nums := []string{"98", "99", "999", "1000", "-1001", "9223372036854775807"}
	i := vx.Choose("num", len(nums))
	flag := vx.Bool("flag")
	words := vx.Choose("words", 4)
	text := vx.String("text", 1)
	vxFull("VX_NUM", nums[i], "FLAG", strconv.FormatBool(flag), "TEXT", text, "WORDS", []string{"", "r", "r,b", "r,b,g"}[words])
	svc, err := vxRestart()
	switch {
	case i == 5:
		vx.Reach("overflow")
		vx.Assert(err != nil, "a variable that cannot be computed ends the start of the service")
		return
	case i == 1:
		vxRefused(err, "hundred "+text)
		return
	case flag && i == 3:
		vxRefused(err, "large")
		return
	case words > 2:
		vxRefused(err, "many")
		return
	}
	vxRequire(err)
	vx.Reach("ok")
	res := vxGet(svc)
	vx.Assert(len(res.Words) == words && len(res.Lens) == words && len(res.Reds) == words, "lists of the service")
	for k := range res.Reds {
		vx.Assert(res.Reds[k] == (k == 0) && res.Lens[k] == 1, "element of a list of the service")
	}
}

// The conditional variables, and those computed from them.
func VX_C29_Conditions() {
	vx.MustReach("on", "off", "unreadable")
	vx.Delays(0)
	f := []string{"true", "false", "TRUE", "yes"}
	flag := vx.String("flag", 1)
	if i := vx.Choose("flagtext", len(f)+1); i < len(f) {
		flag = f[i]
	}
	text := vx.String("text", 1)
	vxFull("FLAG", flag, "TEXT", text)
	svc, err := vxRestart()
	on, perr := strconv.ParseBool(flag)
	if perr != nil {
		vx.Reach("unreadable")
		vx.Assert(err != nil, "the service starts only if its environment can be read")
		return
	}
	vxRequire(err)
	cond, after := "", "none"
	if on {
		vx.Reach("on")
		cond, after = "on "+text, "on "+text+"!"
	} else {
		vx.Reach("off")
	}
	for range 2 {
		res := vxGet(svc)
		vx.Assert(res.Flag == on && res.Cond == cond && res.After == after, "conditional variable of the service")
		vx.Assert(res.Red == on, "conditional enum variable of the service")
		vx.Assert(res.Deep.Cond == cond+text, "variables of the service in another message")
	}
}

// Lists of the environment and those computed from them.
func VX_C29_Lists() {
	vx.MustReach("ok", "refused", "empty")
	vx.Delays(0)
	s := vx.String("words", vxLen(3, 4))
	vx.Assume(utf8.ValidString(s))
	vxFull("WORDS", s)
	svc, err := vxRestart()
	var words []string
	if strings.TrimSpace(s) != "" {
		words = strings.Split(s, ",")
	} else {
		vx.Reach("empty")
	}
	if len(words) > 2 {
		vxRefused(err, "many")
		return
	}
	vxRequire(err)
	vx.Reach("ok")
	res := vxGet(svc)
	vx.Assert(len(res.Words) == len(words) && len(res.Lens) == len(words) && len(res.Reds) == len(words), "number of elements of a list")
	for i, w := range words {
		vx.Assert(res.Words[i] == w && res.Lens[i] == int64(utf8.RuneCountInString(w)) && res.Reds[i] == (w == "r"), "element of a list")
	}
}

// Tables, unsigned numbers and durations of the environment.
func VX_C29_Kinds() {
	vx.MustReach("ok", "unreadable")
	vx.Delays(0)
	table := []string{"", "k:5", "k:4", "k:5,j:1", "j:5", "k", "k:x"}
	small := []string{"", "0", "7", "-1", "18446744073709551615", "18446744073709551616"}
	wait := []string{"", "1s", "1001ms", "2", "-3s"}
	t, s, w := 0, 1, 1
	switch vx.Choose("which", 3) {
	case 0:
		t = vx.Choose("table", len(table))
	case 1:
		s = vx.Choose("small", len(small))
	case 2:
		w = vx.Choose("wait", len(wait))
	}
	vxFull("TABLE", table[t], "SMALL", small[s], "WAIT", wait[w])
	svc, err := vxRestart()
	us, e1 := strconv.ParseUint(small[s], 0, 64)
	d, e2 := time.ParseDuration(wait[w])
	if t >= 5 || e1 != nil || e2 != nil {
		vx.Reach("unreadable")
		vx.Assert(err != nil, "the service starts only if its environment can be read")
		return
	}
	vxRequire(err)
	vx.Reach("ok")
	res := vxGet(svc)
	vx.Assert(res.Has == (t == 1 || t == 3), "table of the environment")
	vx.Assert(res.Small == us && res.Long == (d > time.Second), "number and duration of the environment")
}
