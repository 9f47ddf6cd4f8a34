//go:build zoo

package main

import (
	"context"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	e2e_mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"verif/harness/zoo"
)

// The services of zoo/*.proto, with the code the current generator makes.
const (
	idZoo, idMySvc, idA, idAB, idNoPkg = "my_zoo.v1.Zoo", "my_zoo.v1.my_svc", "my_zoo.v1.A", "my_zoo.v1.A_B", "NoPkg"
)

type (
	eMsg = echo.EchoMsg
	mMsg = e2e_mock.MockMsg
	rMsg = rpcstream.RpcStreamPacket
)

type implZoo struct{ *stubImpl }

func (i implZoo) GetThing(ctx context.Context, m *eMsg) (*mMsg, error) {
	return sU(i.stubImpl, idZoo, "get_thing", cEcho, cMock, ctx, m)
}
func (i implZoo) Watch(m *mMsg, s zoo.SRPCZoo_WatchStream) error {
	return sS(i.stubImpl, idZoo, "Watch", cMock, cEcho, m, s)
}
func (i implZoo) Up(s zoo.SRPCZoo_UpStream) (*mMsg, error) {
	return sC(i.stubImpl, idZoo, "Up", cEcho, cMock, s)
}
func (i implZoo) Talk(s zoo.SRPCZoo_TalkStream) error {
	return sB(i.stubImpl, idZoo, "Talk", cMock, cEcho, s)
}
func (i implZoo) B_C(m *eMsg, s zoo.SRPCZoo_B__CStream) error {
	return sS(i.stubImpl, idZoo, "B_C", cEcho, cMock, m, s)
}
func (i implZoo) Echo(ctx context.Context, m *rMsg) (*eMsg, error) {
	return sU(i.stubImpl, idZoo, "Echo", cRpc, cEcho, ctx, m)
}
func (i implZoo) Stream(m *emptypb.Empty, s zoo.SRPCZoo_StreamStream) error {
	return sS(i.stubImpl, idZoo, "Stream", cEmpty, cRpc, m, s)
}
func (i implZoo) Client(s zoo.SRPCZoo_ClientStream) (*emptypb.Empty, error) {
	return sC(i.stubImpl, idZoo, "Client", cRpc, cEmpty, s)
}

type implMySvc struct{ *stubImpl }

func (i implMySvc) Watch(ctx context.Context, m *eMsg) (*mMsg, error) {
	return sU(i.stubImpl, idMySvc, "Watch", cEcho, cMock, ctx, m)
}
func (i implMySvc) Up(s zoo.SRPCMySvc_UpStream) error {
	return sB(i.stubImpl, idMySvc, "Up", cMock, cEcho, s)
}
func (i implMySvc) Talk(m *mMsg, s zoo.SRPCMySvc_TalkStream) error {
	return sS(i.stubImpl, idMySvc, "Talk", cMock, cEcho, m, s)
}
func (i implMySvc) Lower(s zoo.SRPCMySvc_LowerStream) (*eMsg, error) {
	return sC(i.stubImpl, idMySvc, "lower", cEcho, cEcho, s)
}

type implA struct{ *stubImpl }

func (i implA) B_C(s zoo.SRPCA_B__CStream) error {
	return sB(i.stubImpl, idA, "B_C", cEcho, cMock, s)
}

type implAB struct{ *stubImpl }

func (i implAB) C(s zoo.SRPCA__B_CStream) error {
	return sB(i.stubImpl, idAB, "C", cMock, cEcho, s)
}

type implNoPkg struct{ *stubImpl }

func (i implNoPkg) Only(s zoo.SRPCNoPkg_OnlyStream) error {
	return sB(i.stubImpl, idNoPkg, "Only", cEcho, cEcho, s)
}

func init() {
	type Z = zoo.SRPCZooClient
	zc := newCli(zoo.NewSRPCZooClient, zoo.NewSRPCZooClientWithServiceID)
	type M = zoo.SRPCMySvcClient
	mc := newCli(zoo.NewSRPCMySvcClient, zoo.NewSRPCMySvcClientWithServiceID)
	ac := newCli(zoo.NewSRPCAClient, zoo.NewSRPCAClientWithServiceID)
	abc := newCli(zoo.NewSRPCA_BClient, zoo.NewSRPCA_BClientWithServiceID)
	nc := newCli(zoo.NewSRPCNoPkgClient, zoo.NewSRPCNoPkgClientWithServiceID)
	stubServices = append(stubServices,
		&stubService{id: idZoo, methods: []*stubMethod{
			mU(idZoo, "get_thing", cEcho, cMock, zc, Z.GetThing),
			mS(idZoo, "Watch", cMock, cEcho, zc, Z.Watch),
			mC(idZoo, "Up", cEcho, cMock, zc, Z.Up),
			mB(idZoo, "Talk", cMock, cEcho, zc, Z.Talk),
			mS(idZoo, "B_C", cEcho, cMock, zc, Z.B_C),
			mU(idZoo, "Echo", cRpc, cEcho, zc, Z.Echo),
			mS(idZoo, "Stream", cEmpty, cRpc, zc, Z.Stream),
			mC(idZoo, "Client", cRpc, cEmpty, zc, Z.Client),
		},
			handler: func(i *stubImpl, sid string) srpc.Handler { return zoo.NewSRPCZooHandler(implZoo{i}, sid) },
			reg:     func(m srpc.Mux, i *stubImpl) error { return zoo.SRPCRegisterZoo(m, implZoo{i}) },
		},
		&stubService{id: idMySvc, methods: []*stubMethod{
			mU(idMySvc, "Watch", cEcho, cMock, mc, M.Watch),
			mB(idMySvc, "Up", cMock, cEcho, mc, M.Up),
			mS(idMySvc, "Talk", cMock, cEcho, mc, M.Talk),
			mC(idMySvc, "lower", cEcho, cEcho, mc, M.Lower),
		},
			handler: func(i *stubImpl, sid string) srpc.Handler { return zoo.NewSRPCMySvcHandler(implMySvc{i}, sid) },
			reg:     func(m srpc.Mux, i *stubImpl) error { return zoo.SRPCRegisterMySvc(m, implMySvc{i}) },
		},
		&stubService{id: idA, methods: []*stubMethod{mB(idA, "B_C", cEcho, cMock, ac, zoo.SRPCAClient.B_C)},
			handler: func(i *stubImpl, sid string) srpc.Handler { return zoo.NewSRPCAHandler(implA{i}, sid) },
			reg:     func(m srpc.Mux, i *stubImpl) error { return zoo.SRPCRegisterA(m, implA{i}) },
		},
		&stubService{id: idAB, methods: []*stubMethod{mB(idAB, "C", cMock, cEcho, abc, zoo.SRPCA_BClient.C)},
			handler: func(i *stubImpl, sid string) srpc.Handler { return zoo.NewSRPCA_BHandler(implAB{i}, sid) },
			reg:     func(m srpc.Mux, i *stubImpl) error { return zoo.SRPCRegisterA_B(m, implAB{i}) },
		},
		&stubService{id: idNoPkg, methods: []*stubMethod{mB(idNoPkg, "Only", cEcho, cEcho, nc, zoo.SRPCNoPkgClient.Only)},
			handler: func(i *stubImpl, sid string) srpc.Handler { return zoo.NewSRPCNoPkgHandler(implNoPkg{i}, sid) },
			reg:     func(m srpc.Mux, i *stubImpl) error { return zoo.SRPCRegisterNoPkg(m, implNoPkg{i}) },
		})
}
