package main

import (
	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/protocol"
)

// wireRange sends roots over the wire.
func wireRange(strs []*protocol.DirSTR) []*protocol.DirSTR {
	b, err := application.MarshalResponse(protocol.NewSTRHistoryRange(strs))
	if err != nil {
		panic(err)
	}
	res := application.UnmarshalResponse(protocol.STRType, b)
	return res.DirectoryResponse.(*protocol.STRHistoryRange).STR
}

// wireResponse sends a response over the wire.
func wireResponse(t int, res *protocol.Response) *protocol.Response {
	b, err := application.MarshalResponse(res)
	if err != nil {
		panic(err)
	}
	return application.UnmarshalResponse(t, b)
}
