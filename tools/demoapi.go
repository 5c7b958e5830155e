package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"time"

	"github.com/fido-alliance/iot-fdo-conformance-tools/api"
	coredo "github.com/fido-alliance/iot-fdo-conformance-tools/core/do"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
)

// The management interface over the installation of demolib.go.

type apiInst struct {
	*inst
	api string
}

func startApi(seeded int) *apiInst {
	a := &apiInst{inst: start(baseCtx())}
	conf := dbs.MainConfig{SeededGuids: fdoshared.FdoSeedIDs{}}
	for _, sg := range []fdoshared.SgType{fdoshared.StSECP256R1, fdoshared.StSECP384R1} {
		for k := 0; k < seeded; k++ {
			c, err := fdoshared.NewWawDeviceCredential(sg)
			must(err)
			must(dbs.NewDeviceBaseDB(a.db).Save(*c))
			conf.SeededGuids[sg] = append(conf.SeededGuids[sg], c.DCGuid)
		}
	}
	must(dbs.NewConfigDB(a.db).Save(conf))
	a.serve()
	return a
}

// serve starts the handlers anew, as a restart of the server does
func (a *apiInst) serve() {
	old := http.DefaultServeMux
	m := http.NewServeMux()
	http.DefaultServeMux = m
	coredo.SetupServer(a.db, a.ctx)
	rv.SetupServer(a.db, a.ctx)
	api.SetupServer(a.db, a.ctx)
	http.DefaultServeMux = old
	a.api = httptest.NewServer(m).URL
}

// account makes an account and a login of it
func (a *apiInst) account(email string) string {
	must(dbs.NewUserTestDB(a.db).Save(dbs.UserTestDBEntry{Email: email, Status: dbs.AS_Validated}))
	return a.login(email)
}

func (a *apiInst) login(email string) string {
	c, err := dbs.NewSessionDB(a.db).NewSessionEntry(dbs.SessionEntry{Email: email, LoggedIn: true})
	must(err)
	return string(c)
}

func (a *apiInst) call(method, path, cookie string, body interface{}) (int, []byte) {
	var rd io.Reader
	if body != nil {
		b, err := json.Marshal(body)
		must(err)
		rd = strings.NewReader(string(b))
	}
	req, err := http.NewRequest(method, a.api+path, rd)
	must(err)
	if body != nil {
		req.Header.Set("Content-Type", "application/json")
	}
	if cookie != "" {
		req.Header.Set("Cookie", "session="+cookie)
	}
	resp, err := http.DefaultClient.Do(req)
	must(err)
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	must(err)
	return resp.StatusCode, b
}

type apiRun struct {
	Uuid string `json:"uuid"`
}

type apiTest struct {
	Id  string `json:"id"`
	Url string `json:"url"`
	To0 struct {
		Id   string   `json:"id"`
		Runs []apiRun `json:"runs"`
	} `json:"to0"`
	To1 struct {
		Id   string   `json:"id"`
		Runs []apiRun `json:"runs"`
	} `json:"to1"`
}

func (a *apiInst) rvts(cookie string) []apiTest {
	s, b := a.call("GET", "/api/rvt/testruns", cookie, nil)
	if s != 200 {
		fail("list answered %d %s", s, b)
	}
	var l struct {
		Rvts []apiTest `json:"entries"`
	}
	must(json.Unmarshal(b, &l))
	return l.Rvts
}

func (a *apiInst) newRvt(cookie, url string) {
	if s, b := a.call("POST", "/api/rvt/create", cookie, map[string]string{"url": url}); s != 200 {
		fail("create answered %d %s", s, b)
	}
}

func wait(what string, f func() bool) {
	for n := 0; n < 600; n++ {
		if f() {
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	fail("timeout: %s", what)
}

var _ = fmt.Sprint
