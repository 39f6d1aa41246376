package zzrefs

import (
	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/mercari/grpc-federation/vx"
	"github.com/mercari/grpc-federation/zzdep"
)

// A call waits for every variable that any part of its definition uses.
func VX_C28_CallNeeds() {
	vx.MustReach("a variable fails", "ok", "retried", "condition", "definition", "text", "response", "details")
	vx.Delays(0)
	names := []string{"c_req", "c_rif", "c_retry", "c_eif", "c_edef", "c_emsg", "c_eign", "c_dif", "c_ddef", "c_dmsg", "c_dby", "c_vtype", "c_vsub", "c_vdesc", "c_bfield", "c_bdesc", "c_lmsg"}
	vxPick(names)
	outcome := 0
	if vxDep.fail == "" {
		outcome = vx.Choose("outcome", 7)
	}
	calls := 0
	vxDep.item = func(in *zzdep.GetItemRequest) (*zzdep.GetItemResponse, error) {
		calls++
		for _, n := range names {
			vx.Assert(vxDep.done[n] == 1, "called before what it needs is there: "+n)
		}
		vx.Assert(in.Id == "<c_req>" && in.N == 1, "request")
		switch outcome {
		case 1:
			if calls == 1 {
				return nil, status.Error(codes.Unavailable, "again")
			}
		case 2:
			return nil, status.Error(codes.Unknown, "<c_eif>")
		case 3:
			return nil, status.Error(codes.Unknown, "<c_edef>")
		case 4:
			return nil, status.Error(codes.NotFound, "")
		case 5:
			return nil, status.Error(codes.Aborted, "")
		case 6:
			return nil, status.Error(codes.Internal, "")
		}
		return &zzdep.GetItemResponse{Item: &zzdep.Item{Id: "item"}}, nil
	}
	res, err := vxSvc.GetCall(vxCtx, &GetCallRequest{})
	if vxDep.fail != "" {
		vx.Reach("a variable fails")
		vx.Assert(res == nil && vxIs(err, codes.DataLoss, vxDep.fail) && calls == 0, "a call is made although what it needs failed")
		return
	}
	switch outcome {
	case 0:
		vx.Reach("ok")
		vx.Assert(err == nil && res.Id == "item" && calls == 1, "response")
	case 1:
		vx.Reach("retried")
		vx.Assert(err == nil && res.Id == "item" && calls == 2, "retried call")
	case 2:
		vx.Reach("condition")
		vx.Assert(vxIs(err, codes.Unknown, "by condition"), "block with a variable in its condition")
	case 3:
		vx.Reach("definition")
		vx.Assert(vxIs(err, codes.Unknown, "by definition"), "block with a variable in its definition")
	case 4:
		vx.Reach("text")
		vx.Assert(vxIs(err, codes.NotFound, "<c_emsg>"), "block with a variable in its text")
	case 5:
		vx.Reach("response")
		vx.Assert(err == nil && res.Id == "<c_eign>", "block with a variable in its response")
	case 6:
		vx.Reach("details")
		vx.Assert(vxIs(err, codes.Internal, "details"), "block with details")
		ds := status.Convert(err).Details()
		vx.Assert(len(ds) == 5, "number of details")
		seen := 0
		for _, d := range ds {
			switch d := d.(type) {
			case *Reason:
				vx.Assert(d.S == "<c_dmsg><c_ddef>", "message")
				seen |= 1
			case *zzdep.Owner:
				vx.Assert(d.Name == "<c_dby>", "expression")
				seen |= 2
			case *errdetails.PreconditionFailure:
				v := d.Violations[0]
				vx.Assert(v.Type == "<c_vtype>" && v.Subject == "<c_vsub>" && v.Description == "<c_vdesc>", "precondition")
				seen |= 4
			case *errdetails.BadRequest:
				v := d.FieldViolations[0]
				vx.Assert(v.Field == "<c_bfield>" && v.Description == "<c_bdesc>", "bad request")
				seen |= 8
			case *errdetails.LocalizedMessage:
				vx.Assert(d.Message == "<c_lmsg>", "localized message")
				seen |= 16
			}
		}
		vx.Assert(seen == 31, "kinds of details")
	}
}

// Every other kind of definition does, too, and what follows a validation waits for it.
func VX_C28_Needs() {
	vx.MustReach("a variable fails", "ok", "refused")
	vx.Delays(0)
	late := []string{"l_vif", "l_vdef", "l_vmsg", "l_vdif", "l_vbf"}
	names := append([]string{"r_arg", "r_inl", "r_if", "r_src", "r_mby", "r_marg", "r_enum", "r_menum"}, late...)
	vxPick(names)
	req := &GetRestRequest{}
	if vx.Bool("refuse") {
		req.Id = "<l_vif>"
	}
	after := 0
	vxDep.item = func(in *zzdep.GetItemRequest) (*zzdep.GetItemResponse, error) {
		after++
		for _, n := range late {
			vx.Assert(vxDep.done[n] == 1, "called before the validation: "+n)
		}
		return &zzdep.GetItemResponse{Item: &zzdep.Item{Id: "after"}}, nil
	}
	res, err := vxSvc.GetRest(vxCtx, req)
	vx.Assert(req.Id == "" || after == 0, "called although the validation failed")
	if vxDep.fail != "" {
		vx.Reach("a variable fails")
		vx.Assert(res == nil && err != nil, "no response besides a failure")
		vx.Assert(vxIs(err, codes.DataLoss, vxDep.fail) || req.Id != "" && vxIs(err, codes.FailedPrecondition, "<l_vmsg>"), "failure of the variable")
		return
	}
	if req.Id != "" {
		vx.Reach("refused")
		vx.Assert(res == nil && vxIs(err, codes.FailedPrecondition, "<l_vmsg>"), "validation")
		ds := status.Convert(err).Details()
		vx.Assert(len(ds) == 1 && ds[0].(*errdetails.BadRequest).FieldViolations[0].Description == "<l_vbf>", "details of the validation")
		return
	}
	vx.Reach("ok")
	if err != nil {
		vx.Fail("unexpected failure: " + err.Error())
	}
	vx.Assert(res.Arg.A == "<r_arg>" && res.Arg.Name == "<r_inl>" && res.Cond == "cond", "arguments and condition")
	vx.Assert(len(res.Mby) == 1 && res.Mby[0] == "<r_src><r_mby>" && len(res.Marg) == 1 && res.Marg[0].S == "<r_src><r_marg>", "lists")
	vx.Assert(res.Enum == Color_RED && len(res.Menum) == 1 && res.Menum[0] == Color_RED, "enums")
	vx.Assert(res.Late.Id == "after" && after == 1, "what follows the validation")
}
