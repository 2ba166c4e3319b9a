package main

// modelTargets maps functions of verifh/model to the library functions they stand for.
var modelTargets = map[string][]string{
	"JSONMarshal":         {"encoding/json.Marshal"},
	"JSONMarshalIndent":   {"encoding/json.MarshalIndent"},
	"JSONUnmarshal":       {"encoding/json.Unmarshal"},
	"JSONValid":           {"encoding/json.Valid"},
	"JSONNewEncoder":      {"encoding/json.NewEncoder"},
	"JSONEncode":          {"(*encoding/json.Encoder).Encode"},
	"HTMLNew":             {"html/template.New"},
	"HTMLSub":             {"(*html/template.Template).New"},
	"HTMLFuncs":           {"(*html/template.Template).Funcs"},
	"HTMLParse":           {"(*html/template.Template).Parse"},
	"HTMLExecute":         {"(*html/template.Template).Execute"},
	"JSONNewDecoder":      {"encoding/json.NewDecoder"},
	"JSONUseNumber":       {"(*encoding/json.Decoder).UseNumber"},
	"JSONDecode":          {"(*encoding/json.Decoder).Decode"},
	"JSONMore":            {"(*encoding/json.Decoder).More"},
	"JSONBuffered":        {"(*encoding/json.Decoder).Buffered"},
	"JSONSetEscapeHTML":   {"(*encoding/json.Encoder).SetEscapeHTML"},
	"JSONSetIndent":       {"(*encoding/json.Encoder).SetIndent"},
	"JSONIndent":          {"encoding/json.Indent"},
	"JSONCompact":         {"encoding/json.Compact"},
	"Sprintf":             {"fmt.Sprintf"},
	"Sprint":              {"fmt.Sprint"},
	"Sprintln":            {"fmt.Sprintln"},
	"Errorf":              {"fmt.Errorf"},
	"Fprintf":             {"fmt.Fprintf"},
	"Fprint":              {"fmt.Fprint"},
	"Fprintln":            {"fmt.Fprintln"},
	"Printf":              {"fmt.Printf"},
	"Println":             {"fmt.Println"},
	"PoolGet":             {"(*sync.Pool).Get"},
	"PoolPut":             {"(*sync.Pool).Put"},
	"SortSlice":           {"sort.Slice", "sort.SliceStable"},
	"SortSort":            {"sort.Sort", "sort.Stable"},
	"SortStrings":         {"sort.Strings"},
	"OnceDo":              {"(*sync.Once).Do"},
	"ErrorsIs":            {"errors.Is"},
	"CBORNewEncoder":      {"github.com/ugorji/go/codec.NewEncoder"},
	"CBOREncode":          {"(*github.com/ugorji/go/codec.Encoder).Encode"},
	"IoCopyN":             {"io.CopyN"},
	"HLLInsert":           {"(*github.com/axiomhq/hyperloglog.Sketch).Insert"},
	"HLLEstimate":         {"(*github.com/axiomhq/hyperloglog.Sketch).Estimate"},
	"SipSum":              {"github.com/dgryski/go-sip13.Sum64Str"},
	"CmpDiff":             {"github.com/google/go-cmp/cmp.Diff"},
	"CmpEqual":            {"github.com/google/go-cmp/cmp.Equal"},
	"CmpIgnoreFields":     {"github.com/google/go-cmp/cmp/cmpopts.IgnoreFields"},
	"CmpEquateEmpty":      {"github.com/google/go-cmp/cmp/cmpopts.EquateEmpty"},
	"CmpIgnoreUnexported": {"github.com/google/go-cmp/cmp/cmpopts.IgnoreUnexported"},
	"SHA256New":           {"crypto/sha256.New"},
	"SHA256Sum":           {"crypto/sha256.Sum256"},
}
