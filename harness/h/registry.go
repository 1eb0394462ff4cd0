package h

// Registry names the harness entry points for native replay (written by tools/registry.sh).
var Registry = map[string]func(int){
	"C01Big":          C01Big,
	"C01Short":        C01Short,
	"C01Window":       C01Window,
	"C02Big":          C02Big,
	"C02Markers":      C02Markers,
	"C02Parts":        C02Parts,
	"C02Prefix":       C02Prefix,
	"C02Short":        C02Short,
	"C02Tokens":       C02Tokens,
	"C02Unsupported":  C02Unsupported,
	"C02Wide":         C02Wide,
	"C02WideAny":      C02WideAny,
	"C02Window":       C02Window,
	"C03Big":          C03Big,
	"C03Components":   C03Components,
	"C03Dup":          C03Dup,
	"C03Exprs":        C03Exprs,
	"C03Mix":          C03Mix,
	"C03Names":        C03Names,
	"C03Nested":       C03Nested,
	"C03Order":        C03Order,
	"C03Two":          C03Two,
	"C04All":          C04All,
	"C04Big":          C04Big,
	"C04CommentText":  C04CommentText,
	"C04End":          C04End,
	"C04Ends":         C04Ends,
	"C04Gap":          C04Gap,
	"C04Pair":         C04Pair,
	"C04Wide":         C04Wide,
	"C05Big":          C05Big,
	"C05Concat":       C05Concat,
	"C05Idle":         C05Idle,
	"C05Layout":       C05Layout,
	"C05Many":         C05Many,
	"C05Mix":          C05Mix,
	"C05Same":         C05Same,
	"C05Tight":        C05Tight,
	"C06Big":          C06Big,
	"C06Binary":       C06Binary,
	"C06Calls":        C06Calls,
	"C06Deep":         C06Deep,
	"C06Literals":     C06Literals,
	"C06Mix":          C06Mix,
	"C06Nested":       C06Nested,
	"C06Table":        C06Table,
	"C06Unary":        C06Unary,
	"C06Window":       C06Window,
	"C07Big":          C07Big,
	"C07Cut":          C07Cut,
	"C07File":         C07File,
	"C07Lines":        C07Lines,
	"C07Names":        C07Names,
	"C07Short":        C07Short,
	"C07Wide":         C07Wide,
	"C07WideAny":      C07WideAny,
	"C07WideAt":       C07WideAt,
	"C07Window":       C07Window,
	"C08Big":          C08Big,
	"C08BigFail":      C08BigFail,
	"C08Fail":         C08Fail,
	"C08FailPieces":   C08FailPieces,
	"C08File":         C08File,
	"C08Huge":         C08Huge,
	"C08Idle":         C08Idle,
	"C08Long":         C08Long,
	"C08LongFail":     C08LongFail,
	"C08Pieces":       C08Pieces,
	"C08Rich":         C08Rich,
	"C09Big":          C09Big,
	"C09Binary":       C09Binary,
	"C09Components":   C09Components,
	"C09Deep":         C09Deep,
	"C09Expr":         C09Expr,
	"C09Mix":          C09Mix,
	"C09Names":        C09Names,
	"C09Nested":       C09Nested,
	"C09Rules":        C09Rules,
	"C09Short":        C09Short,
	"C09Table":        C09Table,
	"C09Two":          C09Two,
	"C09Unary":        C09Unary,
	"C09Wide":         C09Wide,
	"C09WideAny":      C09WideAny,
	"C09Window":       C09Window,
	"C10Big":          C10Big,
	"C10Fail":         C10Fail,
	"C10Full":         C10Full,
	"C10Mix":          C10Mix,
	"C10Print":        C10Print,
	"C10Rich":         C10Rich,
	"C10Rules":        C10Rules,
	"C11Args":         C11Args,
	"C11Big":          C11Big,
	"C11Deep":         C11Deep,
	"C11Extras":       C11Extras,
	"C11Forms":        C11Forms,
	"C11ManyArgs":     C11ManyArgs,
	"C11Mix":          C11Mix,
	"C11Op":           C11Op,
	"C11Places":       C11Places,
	"C11Rules":        C11Rules,
	"C11Same":         C11Same,
	"C11Shared":       C11Shared,
	"C11Two":          C11Two,
	"C11Wide":         C11Wide,
	"C12Bad":          C12Bad,
	"C12Big":          C12Big,
	"C12Files":        C12Files,
	"C12ManyArgs":     C12ManyArgs,
	"C12Pairs":        C12Pairs,
	"C12Single":       C12Single,
	"C12Triples":      C12Triples,
	"C12Wide":         C12Wide,
	"C12Widths":       C12Widths,
	"C12Within":       C12Within,
	"C13Big":          C13Big,
	"C13Error":        C13Error,
	"C13Forms":        C13Forms,
	"C13ManyArgs":     C13ManyArgs,
	"C13Mix":          C13Mix,
	"C13Places":       C13Places,
	"C13Room":         C13Room,
	"C13Same":         C13Same,
	"C14Big":          C14Big,
	"C14Contains":     C14Contains,
	"C14Inspect":      C14Inspect,
	"C14ManyArgs":     C14ManyArgs,
	"C14Mix":          C14Mix,
	"C14Shapes":       C14Shapes,
	"C14Walk":         C14Walk,
	"C15Big":          C15Big,
	"C15Deep":         C15Deep,
	"C15Mix":          C15Mix,
	"C15Others":       C15Others,
	"C15Subsets":      C15Subsets,
	"C15Texts":        C15Texts,
	"C15Two":          C15Two,
	"C16Big":          C16Big,
	"C16Holes":        C16Holes,
	"C16Long":         C16Long,
	"C16Mixed":        C16Mixed,
	"C16Names":        C16Names,
	"C16Shapes":       C16Shapes,
	"C16Tails":        C16Tails,
	"C16Words":        C16Words,
	"C17Args":         C17Args,
	"C17Big":          C17Big,
	"C17Close":        C17Close,
	"C17Holes":        C17Holes,
	"C17Known":        C17Known,
	"C17Names":        C17Names,
	"C17Nested":       C17Nested,
	"C17Pairs":        C17Pairs,
	"C17Single":       C17Single,
	"C18Alternation":  C18Alternation,
	"C18Arity":        C18Arity,
	"C18Big":          C18Big,
	"C18Deep":         C18Deep,
	"C18Feature":      C18Feature,
	"C18Features":     C18Features,
	"C18Mix":          C18Mix,
	"C18Near":         C18Near,
	"C18Opcode":       C18Opcode,
	"C18Texts":        C18Texts,
	"C18Twice":        C18Twice,
	"C18Types":        C18Types,
	"C18Value":        C18Value,
	"C18Well":         C18Well,
	"C19Big":          C19Big,
	"C19InNames":      C19InNames,
	"C19Left":         C19Left,
	"C19Many":         C19Many,
	"C19Numbers":      C19Numbers,
	"C19Order":        C19Order,
	"C19OutNames":     C19OutNames,
	"C19Outdir":       C19Outdir,
	"C19Refused":      C19Refused,
	"C19Rules":        C19Rules,
	"C19Symbolic":     C19Symbolic,
	"C19Typed":        C19Typed,
	"C20Big":          C20Big,
	"C20Cut":          C20Cut,
	"C20Input":        C20Input,
	"C20ManyFail":     C20ManyFail,
	"C20ManyFiles":    C20ManyFiles,
	"C20Mismatch":     C20Mismatch,
	"C20Missing":      C20Missing,
	"C20Output":       C20Output,
	"C20Refused":      C20Refused,
	"C21After":        C21After,
	"C21Big":          C21Big,
	"C21BigTyped":     C21BigTyped,
	"C21Changed":      C21Changed,
	"C21File":         C21File,
	"C21History":      C21History,
	"C21Intact":       C21Intact,
	"C21Kept":         C21Kept,
	"C21Mix":          C21Mix,
	"C21Names":        C21Names,
	"C21Repeat":       C21Repeat,
	"C21Same":         C21Same,
	"C21Text":         C21Text,
	"C22Big":          C22Big,
	"C22Go":           C22Go,
	"C22GoDeep":       C22GoDeep,
	"C22Mix":          C22Mix,
	"C22Op":           C22Op,
	"C22Root":         C22Root,
	"C22Value":        C22Value,
	"C23Fail":         C23Fail,
	"C23Mix":          C23Mix,
	"C23Nodes":        C23Nodes,
	"C23Print":        C23Print,
	"C23Rich":         C23Rich,
	"C23Text":         C23Text,
	"C24Big":          C24Big,
	"C24Mix":          C24Mix,
	"C24Names":        C24Names,
	"C24Pairs":        C24Pairs,
	"C24Shared":       C24Shared,
	"C24Text":         C24Text,
	"C24Warm":         C24Warm,
	"DemoCondComment": DemoCondComment,
}
