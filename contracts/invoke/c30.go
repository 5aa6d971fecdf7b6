//verif:pkg invoke
package invoke

//verif:prop C30
func H_RoundTrip(port string, data []byte, complete, next bool, k int) {
	vRequires(len(port) <= 65535)
	in := PortIO{Port: port, Data: data, Complete: complete, Next: next}
	out := PortIO{Port: "old", Data: []byte{1}, Complete: true, Next: true}
	err := out.Decode(in.Encode())
	vEnsures("decodes", err == nil)
	vEnsures("port", out.Port == port)
	vEnsures("flags", out.Complete == complete && out.Next == next)
	vEnsures("data length", len(out.Data) == len(data))
	if 0 <= k && k < len(data) {
		vEnsures("data", out.Data[k] == data[k])
	}
	vEnsures("unchanged", in.Port == port && len(in.Data) == len(data) && in.Complete == complete && in.Next == next)
}

// Any input is decoded or refused; what is too short for its header or its
// announced identifier is refused.
//
//verif:prop C30
func H_Decode(data []byte, k int) {
	out := PortIO{Port: "old"}
	err := out.Decode(data)
	short := len(data) < 3 || len(data) < 3+(int(data[1])<<8|int(data[2]))
	vEnsures("short is an error", vImp(short, err != nil))
	vEnsures("long enough is decoded", vImp(!short, err == nil))
	if err == nil {
		n := int(data[1])<<8 | int(data[2])
		vEnsures("port length", len(out.Port) == n)
		vEnsures("data length", len(out.Data) == len(data)-3-n)
		if 0 <= k && k < len(out.Port) {
			vEnsures("port", out.Port[k] == data[3+k])
		}
		if 0 <= k && k < len(out.Data) {
			vEnsures("data", out.Data[k] == data[3+n+k])
		}
	}
}
