module verifh

go 1.15

require (
	github.com/qri-io/dataset v0.0.0
	github.com/360EntSecGroup-Skylar/excelize v1.4.1
	github.com/axiomhq/hyperloglog v0.0.0-20191112132149-a4c4c47bc57f
	github.com/dgryski/go-sip13 v0.0.0-20200911182023-62edffca9245 // indirect
	github.com/dgryski/go-topk v0.0.0-20191119021947-593b4f2374c9
	github.com/google/go-cmp v0.5.5
	github.com/ipfs/go-log v1.0.5
	github.com/jinzhu/copier v0.0.0-20190924061706-b57f9002281a
	github.com/k0kubun/colorstring v0.0.0-20150214042306-9440f1994b88 // indirect
	github.com/klauspost/compress v1.13.0
	github.com/libp2p/go-libp2p-core v0.8.5
	github.com/mr-tron/base58 v1.2.0
	github.com/multiformats/go-multihash v0.0.15
	github.com/qri-io/compare v0.1.0
	github.com/qri-io/jsonschema v0.2.2-0.20210618085106-a515144d7449
	github.com/qri-io/qfs v0.6.1-0.20210629014446-45bdcdb57434
	github.com/qri-io/varName v0.1.0
	github.com/sergi/go-diff v1.1.0 // indirect
	github.com/ugorji/go/codec v1.1.7
	github.com/yudai/gojsondiff v1.0.0
	github.com/yudai/golcs v0.0.0-20170316035057-ecda9a501e82 // indirect
	github.com/yudai/pp v2.0.1+incompatible // indirect
)

replace github.com/qri-io/dataset => /repo
