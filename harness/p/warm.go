package p

import (
	"bytes"

	"github.com/aclindsa/ofxgo"
)

func WarmupA() {
	var r ofxgo.Request
	r.Signon.UserID = "a"
	r.Signon.UserPass = "b"
	r.Version = ofxgo.OfxVersion203
	r.Marshal()
	ofxgo.ParseResponse(bytes.NewReader([]byte("")))
}

// WarmupNative prepares the native runner.
func WarmupNative() {}
