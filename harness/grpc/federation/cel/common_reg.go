package cel

import (
	"github.com/google/cel-go/common/types"
	"google.golang.org/protobuf/proto"
)

var vxReg = types.NewEmptyRegistry()

// The message types are set up by the package's init functions.
func init() {
	for _, m := range []proto.Message{new(Time), new(Location), new(URL), new(Userinfo)} {
		if err := vxReg.RegisterMessage(m); err != nil {
			panic(err)
		}
	}
}
