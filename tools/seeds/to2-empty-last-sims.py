PROPERTY = "P07"
NEEDS = "a device that announces the end of its service information with a message that carries no item, after delivering too few items"
BREAKS = "the owner service hands out its service information although mandatory device items are missing"
EDITS = [("core/do/to2/listener-to2-68-DeviceServiceInfo.go", """		if session.OwnerSIMsSendCounter == 0 {
			resultSims""", """		if session.OwnerSIMsSendCounter == 0 && (len(deviceServiceInfo.ServiceInfo) > 0 || len(session.DeviceSIMs) == 0) {
			resultSims"""), ("core/do/to2/listener-to2-68-DeviceServiceInfo.go", """
			log.Println("DeviceServiceInfo68: Validated device sims: ", *resultSims.SIM_DEVMOD_ARCH, *resultSims.SIM_DEVMOD_DEVICE, *resultSims.SIM_DEVMOD_OS)
""", """
			log.Println("DeviceServiceInfo68: Validated device sims: ", resultSims.SIM_DEVMOD_ARCH, resultSims.SIM_DEVMOD_DEVICE, resultSims.SIM_DEVMOD_OS)
""")]
MAIN = """package main

import (
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

func main() {
	i := start(baseCtx())
	dv := i.device(fdoshared.StSECP256R1, fdoshared.StSECP256R1)
	for _, n := range []int{len(devmod()), 3} {
		r := i.to2(dv, fdoshared.KEX_ECDH256, fdoshared.CIPHER_A128GCM)
		must(i.upTo(r, 66))
		o, _, err := r.DeviceServiceInfo68(fdoshared.DeviceServiceInfo68{ServiceInfo: devmod()[:n], IsMoreServiceInfo: true}, testcom.NULL_TEST)
		must(err)
		if len(o.ServiceInfo) != 0 || o.IsDone {
			fail("owner sends although the device has more to say")
		}
		_, _, err = r.DeviceServiceInfo68(fdoshared.DeviceServiceInfo68{ServiceInfo: []fdoshared.ServiceInfoKV{}}, testcom.NULL_TEST)
		if n == 3 && err == nil {
			fail("owner service information handed out after 3 device items")
		}
		if n != 3 && err != nil {
			fail("complete device information refused: %v", err)
		}
	}
}
"""
