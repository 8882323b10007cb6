package kit

import (
	"context"
	"fmt"
	"io"
	"os"
	"time"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
	mockens "github.com/fairdatasociety/fairOS-dfs/pkg/ensm/eth/mock"
	"github.com/fairdatasociety/fairOS-dfs/pkg/logging"
	"github.com/fairdatasociety/fairOS-dfs/pkg/user"
	"github.com/sirupsen/logrus"
)

// The mock name service stores public keys without left padding, so a random
// key fails once in 128 logins; a fixed account avoids that.
const (
	mnemonic = "test test test test test test test test test test test junk"
	userName = "user1"
	password = "testpasswordtestpassword"
	// Pod is the pod the checks work in.
	Pod = "Fave"
)

// World is a Swarm node with one registered account; every Client built on it
// is a fresh process as far as FaVe is concerned (nothing shared but the
// stored data).
type World struct {
	Bee           *MemBee
	ens           *mockens.NamespaceManager
	created       bool
	VectorizerURL string
}

// NewWorld returns a world with an empty node.
func NewWorld() *World {
	return &World{Bee: NewMemBee(), ens: mockens.NewMockNamespaceManager()}
}

// API returns a new dfs API over the node, as a new process would build.
func (w *World) API() *dfs.API {
	logger := logging.New(io.Discard, logrus.PanicLevel)
	users := user.NewUsers(w.Bee, w.ens, 1000, time.Minute*60, logger)
	api := dfs.NewMockDfsAPI(w.Bee, users, logger)
	if !w.created {
		_, err := api.CreateUserV2(userName, password, mnemonic, "")
		Abort(err)
		w.created = true
	}
	return api
}

// RawClient builds a client without login or pod.
func (w *World) RawClient() *document.Client {
	c, err := document.New(document.Config{VectorizerUrl: w.VectorizerURL}, w.API())
	if err != nil {
		Abort(fmt.Errorf("document.New: %w", err))
	}
	return c
}

// Credentials of the account of the world.
func Credentials() (string, string) { return userName, password }

// Client builds a logged-in client with the pod open: a restarted server.
func (w *World) Client() (*document.Client, error) { return w.ClientOn(Pod) }

// ClientOn is Client for another pod.
func (w *World) ClientOn(pod string) (*document.Client, error) {
	c := w.RawClient()
	if err := c.Login(userName, password); err != nil {
		return nil, fmt.Errorf("login: %w", err)
	}
	if err := c.OpenPod(pod); err != nil {
		return nil, fmt.Errorf("open pod: %w", err)
	}
	return c, nil
}

// Connect makes the server's own start-up (handlers.NewHandler) work on this
// world: the connection to the node and the credentials it reads from the
// environment.
func (w *World) Connect() {
	dfs.Connect = func(context.Context, *dfs.Options) (*dfs.API, error) { return w.API(), nil }
	for k, v := range map[string]string{"USER": userName, "PASSWORD": password, "POD": Pod, "VECTORIZER_URL": w.VectorizerURL,
		"BEE_API": "http://127.0.0.1:1", "RPC_API": "http://127.0.0.1:1", "STAMP_ID": "00", "VERBOSE": ""} {
		Abort(os.Setenv(k, v))
	}
}
