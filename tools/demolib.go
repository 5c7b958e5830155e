package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"

	"github.com/dgraph-io/badger/v4"

	fdodeviceimplementation "github.com/fido-alliance/iot-fdo-conformance-tools/core/device"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to1"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	coredo "github.com/fido-alliance/iot-fdo-conformance-tools/core/do"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to0"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

// A small in-process installation: rendezvous and onboarding service over one
// in-memory database, reachable on the loopback interface.

type inst struct {
	db  *badger.DB
	url string
	ctx context.Context
}

func fail(f string, a ...interface{}) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}

func baseCtx() context.Context {
	c := context.WithValue(context.Background(), fdoshared.CFG_ENV_INTEROP_ENABLED, false)
	return context.WithValue(c, fdoshared.CFG_ENV_FDO_SERVICE_URL, "http://127.0.0.1:8080")
}

func start(ctx context.Context) *inst {
	if os.Getenv("DEMO_VERBOSE") == "" {
		log.SetOutput(io.Discard)
	}
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil))
	must(err)
	old := http.DefaultServeMux
	m := http.NewServeMux()
	http.DefaultServeMux = m
	coredo.SetupServer(db, ctx)
	rv.SetupServer(db, ctx)
	http.DefaultServeMux = old
	s := httptest.NewServer(m)
	return &inst{db: db, url: s.URL, ctx: ctx}
}

func (i *inst) srv() fdoshared.SRVEntry { return fdoshared.SRVEntry{SrvURL: i.url} }

// device makes a virtual device with its voucher; the owner service knows it.
func (i *inst) device(devSg, ownerSg fdoshared.SgType) *fdoshared.DeviceCredAndVoucher {
	cred, err := fdoshared.NewWawDeviceCredential(devSg)
	must(err)
	rvi, err := fdoshared.UrlsToRendezvousInfo([]string{"http://127.0.0.1:8080"})
	must(err)
	dv, err := fdodeviceimplementation.NewVirtualDeviceAndVoucher(*cred, ownerSg, rvi, testcom.NULL_TEST)
	must(err)
	must(dodbs.NewVoucherDB(i.db).Save(dv.VoucherDBEntry))
	return dv
}

func (i *inst) to0(dv *fdoshared.DeviceCredAndVoucher) to0.To0Requestor {
	return to0.NewTo0Requestor(i.srv(), dv.VoucherDBEntry, i.ctx)
}

// register performs a complete TO0.
func (i *inst) register(dv *fdoshared.DeviceCredAndVoucher) error {
	r := i.to0(dv)
	a, _, err := r.Hello20(testcom.NULL_TEST)
	if err != nil {
		return err
	}
	_, _, err = r.OwnerSign22(a.NonceTO0Sign, testcom.NULL_TEST)
	return err
}

// redirect performs a complete TO1.
func (i *inst) redirect(dv *fdoshared.DeviceCredAndVoucher) (*fdoshared.CoseSignature, error) {
	r := to1.NewTo1Requestor(i.srv(), dv.WawDeviceCredential)
	a, _, err := r.HelloRV30(testcom.NULL_TEST)
	if err != nil {
		return nil, err
	}
	c, _, err := r.ProveToRV32(*a, testcom.NULL_TEST)
	return c, err
}

func (i *inst) to2(dv *fdoshared.DeviceCredAndVoucher, kex fdoshared.KexSuiteName, cipher fdoshared.CipherSuiteName) *to2.To2Requestor {
	r := to2.NewTo2Requestor(i.srv(), dv.WawDeviceCredential, kex, cipher)
	return &r
}

// upTo runs the onboarding messages 60..last.
func (i *inst) upTo(r *to2.To2Requestor, last int) error {
	p, _, err := r.HelloDevice60(testcom.NULL_TEST)
	if err != nil || last < 62 {
		return err
	}
	for n := 0; n < int(p.NumOVEntries); n++ {
		if _, _, err := r.GetOVNextEntry62(uint8(n), testcom.NULL_TEST); err != nil {
			return err
		}
	}
	if last < 64 {
		return nil
	}
	if _, _, err := r.ProveDevice64(testcom.NULL_TEST); err != nil || last < 66 {
		return err
	}
	if _, _, err := r.DeviceServiceInfoReady66(testcom.NULL_TEST); err != nil || last < 68 {
		return err
	}
	for n := 0; n < 10; n++ {
		o, _, err := r.DeviceServiceInfo68(fdoshared.DeviceServiceInfo68{ServiceInfo: devmod(), IsMoreServiceInfo: false}, testcom.NULL_TEST)
		if err != nil {
			return err
		}
		if o.IsDone {
			break
		}
	}
	if last < 70 {
		return nil
	}
	_, _, err = r.Done70(testcom.NULL_TEST)
	return err
}

func enc(v interface{}) []byte {
	b, err := fdoshared.CborCust.Marshal(v)
	must(err)
	return b
}

func dec(b []byte, v interface{}) { must(fdoshared.CborCust.Unmarshal(b, v)) }

func devmod() []fdoshared.ServiceInfoKV {
	kv := func(k string, v interface{}) fdoshared.ServiceInfoKV {
		return fdoshared.ServiceInfoKV{ServiceInfoKey: fdoshared.SIM_ID(k), ServiceInfoVal: enc(v)}
	}
	return []fdoshared.ServiceInfoKV{kv("devmod:active", true), kv("devmod:os", "linux"), kv("devmod:arch", "arm"), kv("devmod:version", "1"),
		kv("devmod:device", "d"), kv("devmod:sep", ";"), kv("devmod:bin", "arm"), kv("devmod:nummodules", 1),
		kv("devmod:modules", []interface{}{0, 1, "devmod"})}
}

type answer struct {
	status int
	mtype  string
	auth   string
	body   []byte
	err    error
}

// ok: the due answer; refused: a well formed protocol error
func (a answer) ok(msg int) bool { return a.err == nil && a.status == 200 && a.mtype == fmt.Sprint(msg) }

func (a answer) refused() bool {
	if a.err != nil || a.status < 400 || a.mtype != "255" {
		return false
	}
	var e fdoshared.FdoError
	return fdoshared.CborCust.Unmarshal(a.body, &e) == nil
}

func (i *inst) post(msg int, body []byte, token string) answer {
	req, err := http.NewRequest("POST", fmt.Sprintf("%s/fdo/101/msg/%d", i.url, msg), bytes.NewReader(body))
	must(err)
	req.Header.Set("Content-Type", "application/cbor")
	if token != "" {
		if !strings.HasPrefix(token, "Bearer ") {
			token = "Bearer " + token
		}
		req.Header.Set("Authorization", token)
	}
	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		return answer{err: err}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return answer{status: resp.StatusCode, mtype: resp.Header.Get("Message-Type"), auth: resp.Header.Get("Authorization"), body: b, err: err}
}

// capture returns the body of the request that f sends to the server it is given
func capture(f func(url string)) []byte {
	var body []byte
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		body, _ = io.ReadAll(r.Body)
		w.WriteHeader(500)
	}))
	defer s.Close()
	f(s.URL)
	return body
}
