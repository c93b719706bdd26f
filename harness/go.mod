module verif/harness

go 1.20

require (
	github.com/aclindsa/ofxgo v0.0.0
	github.com/aclindsa/xml v0.0.0-20201125035057-bbd5c9ec99ac
	golang.org/x/term v0.0.0-20210927222741-03fcf44c2211
)

require (
	golang.org/x/sys v0.0.0-20220722155257-8c9f86f7a55f // indirect
	golang.org/x/text v0.3.8 // indirect
)

replace github.com/aclindsa/ofxgo => /repo
