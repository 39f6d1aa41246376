package zzconfig

import (
	"context"
	"os"

	grpcfed "github.com/mercari/grpc-federation/grpc/federation"
	"github.com/mercari/grpc-federation/vx"
)

var (
	vxSvc *Config
	vxCtx = context.Background()
)

var vxNames = []string{"TEXT", "NUM", "VX_NUM", "FLAG", "WORDS", "MUST", "OFF", "TABLE", "SMALL", "WAIT"}

// vxEnv sets exactly the given variables of the service.
func vxEnv(kv ...string) {
	for _, n := range vxNames {
		os.Unsetenv(n)
	}
	for i := 0; i < len(kv); i += 2 {
		os.Setenv(kv[i], kv[i+1])
	}
}

func init() {
	file_zzconfig_config_proto_init()
	vxEnv("FLAG", "true", "MUST", "m", "WORDS", "r,b")
	svc, err := NewConfig(ConfigConfig{})
	if err != nil {
		panic(err)
	}
	vxSvc = svc
	for range 2 {
		if _, err := svc.GetConfig(vxCtx, &GetConfigRequest{}); err != nil {
			panic(err)
		}
	}
	for _, e := range [][]string{
		{"MUST", "m", "VX_NUM", "99"},
		{"MUST", "m", "VX_NUM", "1000", "FLAG", "true"},
		{"MUST", "m", "WORDS", "a,b,c"},
	} {
		vxEnv(e...)
		if _, err := vxRestart(); err == nil {
			panic("no failure of " + e[2])
		}
	}
	vxEnv("MUST", "m", "TABLE", "k:5")
	svc, err = vxRestart()
	if err != nil {
		panic(err)
	}
	if _, err := svc.GetConfig(vxCtx, &GetConfigRequest{}); err != nil {
		panic(err)
	}
	vxEnv()
}

// vxRestart starts the service again, with its expressions compiled already.
func vxRestart() (*Config, error) {
	s, env := *vxSvc, ConfigEnv{}
	if err := grpcfed.LoadEnv("", &env); err != nil {
		return nil, err
	}
	s.env, s.svcVar = &env, new(ConfigVariable)
	if err := s.initServiceVariables(); err != nil {
		return nil, err
	}
	return &s, nil
}

func vxRequire(err error) {
	if err != nil {
		vx.Fail("unexpected failure: " + err.Error())
	}
}

func vxGet(s *Config) *GetConfigResponse {
	res, err := s.GetConfig(vxCtx, &GetConfigRequest{})
	vxRequire(err)
	return res
}
