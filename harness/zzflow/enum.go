package zzflow

import "github.com/mercari/grpc-federation/vx"

var vxShades = map[int32]string{0: "SHADE_NONE", 3: "SHADE_DARK", 4: "SHADE_LIGHT"}
var vxAttrs = map[int32]string{0: "none", 3: "dark", 4: ""}

// Every expression is compiled once, before the requests explored.
func init() {
	for _, r := range []*GetKindRequest{{}, {First: true, Name: "SHADE_DARK", Shade: 3, N: 3}} {
		vxSvc.GetKind(vxCtx, r)
	}
	vxSvc.GetLabel(vxCtx, &GetLabelRequest{})
}

// Names, numbers and attributes of enums.
func VX_C26_Enum() {
	vx.MustReach("ok", "refused")
	vx.Delays(0)
	req := &GetKindRequest{First: vx.Bool("first"), Name: []string{"SHADE_NONE", "SHADE_DARK", "SHADE_LIGHT", "", "shade_dark"}[vx.Choose("name", 5)]}
	req.Shade = Shade(vx.Int32("shade"))
	req.N = vx.Int64("n")
	res, err := vxSvc.GetKind(vxCtx, req)
	if err != nil {
		vx.Reach("refused")
		vx.Note(err.Error())
		return
	}
	vx.Reach("ok")
	k := Kind_KIND_OTHER
	if req.First {
		k = Kind_KIND_RED
	}
	vx.Assert(res.Sel == k, "selected enum")
	vx.Assert(res.Nm == vxShades[int32(req.Shade)], "name of an enum value")
	vx.Assert(res.At == vxAttrs[int32(req.Shade)], "attribute of an enum value")
	vx.Assert(int64(res.Fr) == req.N, "enum value from its number")
	if n, ok := Shade_value[req.Name]; ok {
		vx.Assert(int32(res.V) == n, "enum value from its name")
	}
}

// A number that is no value of the enum has no name and no attribute.
func VX_C26_Label() {
	vx.MustReach("ok", "refused")
	vx.Delays(0)
	req := &GetLabelRequest{N: vx.Int64("n")}
	res, err := vxSvc.GetLabel(vxCtx, req)
	known := req.N == 0 || req.N == 3 || req.N == 4
	vx.Assert((err == nil) == known, "attribute of a number that is no value")
	if err != nil {
		vx.Reach("refused")
		return
	}
	vx.Reach("ok")
	vx.Assert(res.Nm == vxShades[int32(req.N)] && res.At == vxAttrs[int32(req.N)], "name and attribute")
}
