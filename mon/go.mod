module verifmon

go 1.23

require (
	github.com/klauspost/compress v1.13.0
	github.com/mr-tron/base58 v1.2.0
	github.com/qri-io/dataset v0.0.0
	github.com/qri-io/jsonschema v0.2.2-0.20210618085106-a515144d7449
	github.com/qri-io/qfs v0.6.1-0.20210629014446-45bdcdb57434
	github.com/qri-io/varName v0.1.0
	github.com/ugorji/go/codec v1.1.7
	github.com/yudai/gojsondiff v1.0.0
)

require (
	github.com/360EntSecGroup-Skylar/excelize v1.4.1 // indirect
	github.com/axiomhq/hyperloglog v0.0.0-20191112132149-a4c4c47bc57f // indirect
	github.com/btcsuite/btcd v0.21.0-beta // indirect
	github.com/dgryski/go-metro v0.0.0-20180109044635-280f6062b5bc // indirect
	github.com/dgryski/go-sip13 v0.0.0-20200911182023-62edffca9245 // indirect
	github.com/dgryski/go-topk v0.0.0-20191119021947-593b4f2374c9 // indirect
	github.com/gogo/protobuf v1.3.2 // indirect
	github.com/golang/snappy v0.0.3 // indirect
	github.com/google/go-cmp v0.5.5 // indirect
	github.com/ipfs/go-log v1.0.5 // indirect
	github.com/ipfs/go-log/v2 v2.1.3 // indirect
	github.com/jinzhu/copier v0.0.0-20190924061706-b57f9002281a // indirect
	github.com/klauspost/cpuid/v2 v2.0.4 // indirect
	github.com/libp2p/go-libp2p-core v0.8.5 // indirect
	github.com/minio/blake2b-simd v0.0.0-20160723061019-3f5f724cb5b1 // indirect
	github.com/minio/sha256-simd v1.0.0 // indirect
	github.com/mohae/deepcopy v0.0.0-20170929034955-c48cc78d4826 // indirect
	github.com/multiformats/go-multihash v0.0.15 // indirect
	github.com/multiformats/go-varint v0.0.6 // indirect
	github.com/opentracing/opentracing-go v1.2.0 // indirect
	github.com/qri-io/jsonpointer v0.1.1 // indirect
	github.com/sergi/go-diff v1.1.0 // indirect
	github.com/yudai/golcs v0.0.0-20170316035057-ecda9a501e82 // indirect
	go.uber.org/atomic v1.7.0 // indirect
	go.uber.org/multierr v1.6.0 // indirect
	go.uber.org/zap v1.16.0 // indirect
	golang.org/x/crypto v0.0.0-20210506145944-38f3c27a63bf // indirect
	golang.org/x/sys v0.0.0-20210511113859-b0526f3d8744 // indirect
)

replace github.com/qri-io/dataset => /repo
