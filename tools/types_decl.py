# The declarations of the universe (executed by universe.py).

# --- builder: tracked values everywhere
struct('P2', 'x: Tk', 'y: Tk')
struct('Mix', 'a: u8', 'b: String', 'c: bool')
tstruct('Tup', 'Tk', 'u8')
ustruct('Un')
struct('Nest', 'p: P2', 'o: Option<Tk>', 'l: Vec<Tk>')
struct('Deep', 'd: Mid', 'z: Tk')
struct('Mid', 'q: P2', 'w: Tk')
enum('En', 'u8', V('A'), V('B', 'Tk', 'Tk'), V('C', 'x: Tk', 'y: Option<Tk>'), V('D', 'P2'))
enum('EnC', 'C', V('A', 'u8', 'Tk'), V('B', 'x: Tk', 'n: u64'), V('Z'))
enum('En16', 'u16', V('P', disc=3), V('Q', 'Tk', disc=700), V('R', 'a: u8', 'b: String'), V('S', disc=1))
struct('HasEn', 'e: En', 't: Tk')
struct('Rec', 'v: Tk', 'kids: Vec<Rec>')
struct('Maps', 'm: HashMap<String,Tk>', 'n: HashMap<u8,P2>')
struct('KeyS', 'a: u8', 'b: u8', derive='Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord')
struct('Opts', 'a: Option<Option<Tk>>', 'b: Option<P2>', 'c: Option<Vec<Tk>>')
struct('Units', 'a: Un', 'b: Un', 't: Tk')
struct('DefS', 'a: Tk', 'b: u8', derive='Clone, Debug, PartialEq, Default')
struct('NoTr', 'a: Tk', derive='')
struct('HasNoTr', 'n: NoTr', 'o: Option<NoTr>', 'v: Vec<NoTr>', derive='')
struct('Gen', 'v: T', 'w: Vec<T>', generics='T')
struct('W64', *[f'f{i}: u8' for i in range(64)])
struct('W63', *[f'f{i}: u8' for i in range(63)])
struct('Inv', 'lo: u8', 'hi: u8', attrs=['invariants = "ordered"'],
       extra='impl Inv { fn ordered(&self) -> bool { self.lo <= self.hi } }')
struct('Inv2', 't: Tk', 'lo: u8', 'hi: u8', 'v: Vec<u8>', attrs=['invariants = "ordered"', 'invariants = "short"'],
       extra='impl Inv2 { fn ordered(&self) -> bool { self.lo <= self.hi } fn short(&self) -> bool { self.v.len() <= 1 } }')
struct('Inv3', 'n: u16', 's: String', 'o: Option<Tk>', attrs=['invariants = "even"', 'invariants = "named"', 'invariants = "has"'],
       extra='impl Inv3 { fn even(&self) -> bool { self.n % 2 == 0 } fn named(&self) -> bool { !self.s.is_empty() } fn has(&self) -> bool { self.o.is_some() } }')
struct('HasInv', 'i: Inv', 't: Tk')
struct('Arr', 'a: [Tk;2]', 'r: Arc<Tk>', 'u: (Tk,u8)')
ROOTS += ['Tk', 'Vec<Tk>', 'Vec<P2>', 'Vec<En>', 'Vec<Vec<Tk>>', 'Vec<Option<Tk>>', 'Option<Tk>', 'Option<P2>', 'Option<En>',
          'Option<Option<Tk>>', 'HashMap<String,Tk>', 'HashMap<u8,Vec<Tk>>', 'HashMap<KeyS,Tk>', 'BTreeMap<u8,Tk>', 'BTreeMap<String,P2>',
          'HashMap<u8,Option<Tk>>', 'HashMap<u8,En>', '(Tk,u8)', '[Tk;2]', 'Arc<Tk>', 'Gen<Tk>', 'Gen<u8>', 'Vec<HashMap<u8,Tk>>', 'Vec<Un>', 'Vec<u8>',
          'Option<Un>', 'Vec<NoTr>', 'Option<NoTr>', 'Vec<HasInv>']

# --- documents: JSON, MessagePack, TOML, YAML, forms, arguments
struct('Ints', 'a: u8', 'b: u16', 'c: u32', 'd: u64', 'e: usize', 'f: i8', 'g: i16', 'h: i32', 'i: i64', 'j: isize')
struct('Flts', 'x: f32', 'y: f64')
struct('NzU', 'a: NonZeroU8', 'b: NonZeroU16', 'c: NonZeroU32', 'd: NonZeroU64', 'e: NonZeroUsize')
struct('NzI', 'f: NonZeroI8', 'g: NonZeroI16', 'h: NonZeroI32', 'i: NonZeroI64', 'j: NonZeroIsize')
struct('Person', 'name: String', 'age: u64', 'ok: bool', 'nick: Option<String>', 'tags: Vec<String>')
struct('Ren', 'a: u8 | rename=alpha', 'b: String | rename=be ta', 'c: Option<i16>')
struct('DfF', 'a: u8 | default', 'b: String | default=mk_text', 'c: Option<u8> | default', 'd: u8', 'e: Vec<u8> | default=mk_list',
       extra='fn mk_text() -> String { "dflt".to_string() } fn mk_list() -> Vec<u8> { vec![1, 2] }')
struct('DfW', 'a: u8', 'b: String', 'c: Vec<u8>', 'd: Option<i32>', attrs=['default'],
       extra='impl Default for DfW { fn default() -> Self { DfW { a: 7, b: "whole".to_string(), c: vec![3], d: Some(-4) } } }')
struct('Deny', 'a: u8', 'b: Option<u8>', attrs=['deny_unknown_fields'])
struct('DenyD', 'a: u8 | default; rename=A', 'b: String', attrs=['deny_unknown_fields'])
struct('Outer', 'd: DfF', 'n: Vec<DfW>', 'r: Option<Ren>', 'q: Option<Option<u8>>', 'v: Vec<Vec<i32>>')
struct('NsD', 'd: Deny', 'v: Vec<Deny>', 'n: u8')
struct('DnS', 'p: Flat', 'o: Option<DfF>', 'd: DenyD', attrs=['deny_unknown_fields'])
struct('DwN', 'i: DfW', 'f: DfF', 'l: Vec<Ren>', 'k: String', attrs=['default'],
       extra='impl Default for DwN { fn default() -> Self { DwN { i: DfW { a: 1, b: "in".to_string(), c: vec![], d: None }, f: DfF { a: 9, b: "f".to_string(), c: Some(3), d: 8, e: vec![4] }, l: vec![Ren { a: 5, b: "l".to_string(), c: Some(-6) }], k: "k".to_string() } } }')
struct('DfN', 'a: DfW | default', 'b: Option<DfF> | default', 'c: Vec<u8> | default', 'd: Option<Flat>')
struct('Node', 'v: i64', 'kids: Vec<Node>')
struct('InvJ', 'lo: i32', 'hi: i32', attrs=['invariants = "ordered"'], extra='impl InvJ { fn ordered(&self) -> bool { self.lo <= self.hi } }')
enum('Shp', 'u8', V('Nothing'), V('One', 'u32'), V('Pair', 'u8', 'String'), V('Rec', 'x: f64', 's: Option<bool>'), V('Deep', 'Person'), V('Only', 'z: i8'))
struct('JOut', 'e: Shp', 'es: Vec<Shp>', 'm: HashMap<String,u8>', 'k: BTreeMap<i32,Shp>', 'o: Option<Shp>')
struct('MpS', 'a: u8', 'b: u16', 'c: u32', 'd: u64', 'f: i8', 'g: i16', 'h: i32', 'i: i64', 's: String', 't: bool')
struct('MpN', 'k: MpI', 'name: String', 'z: MpI')
struct('MpI', 'id: u32', 'x: i64')
struct('MpL', 'a: String', 'b: u8', 'c: bool')
struct('Mp15', *[f'g{i}: u8' for i in range(15)])
struct('Mp16', *[f'g{i}: i16' for i in range(16)])
struct('MpX', 'n123456789012345678901234567890: u64', 'm1234567890123456789012345678901: i64', 'k: Mp0', 'w: MpT', 'é: bool')
struct('Mp0')
tstruct('MpT', 'u32', 'String', 'i8')
struct('Cfg', 'title: String', 'port: u16', 'ratio: f64', 'on: bool', 'own: CfgO', 'opt: Option<u8>', 'names: Vec<String>', 'mode: Mode')
struct('CfgO', 'name: String', 'n: i64')
enum('Mode', 'u8', V('Off'), V('Level', 'u8'), V('Both', 'u8', 'String'), V('Full', 'a: i32', 'b: Option<String>'))
tstruct('Wrap', 'u16')
struct('TomlM', 'm: HashMap<String,u8>', 'o: Option<CfgO>', 'l: Vec<Vec<i32>>', 'ms: Vec<Mode>', 'w: Wrap')
struct('TomlE', 'a: Mode', 'b: Option<Mode>', 'c: Vec<Shp>', 'd: HashMap<String,Mode>', 'f: Option<Option<u8>>', 'g: HashMap<String,CfgO>', 'h: Tv')
enum('Tv', 'C', V('P', 'f32'), V('O', 'Option<u8>', 'Option<String>'), V('S', 'a: Option<u8>', 'b: bool', 'c: Mode'), V('N', 'CfgO'), V('W', 'm: HashMap<String,i8>'), V('T', 'Wrap'), V('L', 'Vec<i16>', 'u8'))
struct('TomlO', 'a: Option<CfgO>', 'b: Option<Wrap>', 'c: Option<Vec<Option<u8>>>', 'd: Option<bool>', 'e: Option<f32>', 'f: Option<Tv>', 'g: Option<String>')
struct('Ym', 'host: String', 'port: u64', 'in_: YmI')
struct('YmI', 'a: u64', 'b: String')
struct('Form', 'name: String', 'n: u64', 'user: FormU')
struct('FormU', 'age: u64', 'city: String', 'more: FormV')
struct('FormV', 'z: String')
struct('Flat', 'k: String', 'v: u64')
struct('Args', 'path: String | positional', 'count: u16 | positional', 'verbose: bool | named; short = "v"', 'jobs: i32 | named; short = "j"', 'out: String | named', derive='Debug')
struct('Args1', 'verbose: bool | named', 'x: u8 | named', 'file: String | positional', derive='Debug')
struct('Args2', 'a: char | positional', 'b: f64 | positional', 'c: u64 | positional', derive='Debug')
struct('Args3', 'on: bool | positional', 'n: i64 | named; positional', 'off: bool | named', 'm: NonZeroU8 | named', 'last: String | positional', derive='Debug')
struct('Args4', 's: String | positional', 'r: f32 | named', 'k: usize | positional; named', 'z: i16', derive='Debug')
struct('Args5', 'a: bool | named', 'b: bool | named', derive='Debug')
struct('Args6', 'o: Option<u8> | named', 'l: Vec<String> | positional', 'x: bool | named', derive='Debug')
ROOTS += ['Vec<String>', 'Option<String>', 'Option<Option<u8>>', 'Vec<Option<i64>>', 'Vec<f64>', 'Option<f32>', 'HashMap<String,String>', 'BTreeMap<u8,Vec<u8>>',
          'HashMap<bool,i8>', 'BTreeMap<char,u8>', 'Vec<bool>', 'Option<Vec<Option<bool>>>', 'Vec<Node>', 'Vec<Flat>', 'Vec<Person>', 'HashMap<String,Shp>', 'Vec<Shp>']

# --- printing and descriptions: documentation and sensitive fields everywhere
struct('Sec', 'id: u32', 'key: String | sensitive', 'opt: Option<String> | sensitive; doc= hidden', 'tags: Vec<u8> | sensitive', 'name: String | doc= shown')
tstruct('SecT', 'String | sensitive', 'u16', 'Vec<Sec> | sensitive', 'Option<Sec>')
enum('SecE', 'u8', V('U'), V('T', 'String | sensitive', 'u8', 'Sec'), V('S', 'pw: String | sensitive; doc= the "secret"', 'x: u8 | doc= seen', 'i: Sec', 'e: Vec<SecE> | sensitive'),
     V('E', 'Vec<SecE>', 'Option<f32> | sensitive'), doc=[' An enum', '   with a \\ in it'])
struct('SecN', 's: Sec | sensitive', 'l: Vec<Sec>', 'o: Option<Sec>', 'm: HashMap<String,Sec>', 'a: [Sec;2]', 'e: SecE', 't: (Sec,u8)', 'r: Arc<SecT>', 'u: SecT', 'z: Option<Vec<SecE>>')
struct('SecAll', 'a: Vec<Un> | sensitive', 'b: SecE | sensitive', 'c: bool | sensitive')
struct('Doc', 'a: u8 | doc= First', 'b: DocI | doc= of b; doc= two lines', 'c: Vec<DocI> | doc=no space', 'd: Option<DocE>', 'e: f64 | doc=', 'f: DocT', doc=[' A documented type', '', ' over three lines'])
struct('DocI', 'n: i32', 'o: Option<u8> | doc= maybe', doc=[' inner'])
tstruct('DocT', 'u8', 'DocI', doc=[' tuple struct'])
enum('DocE', 'u8', V('A', doc=[' nothing']), V('B', 'DocI', 'u8', doc=[' b one', ' b two']), V('C', 'x: i64 | doc= the x', 'y: Vec<DocE> | doc= more; doc= and more', 'z: String'), V('D', 'Un'), doc=[' Documented'])
struct('Bytes', 'v: Vec<u8>', 'w: Option<Vec<u8>>', 'x: Vec<Vec<u8>>', 'y: [u8;3]', 'z: (u8,Vec<u8>)')
struct('Zst', 'a: Un', 'b: Vec<Un>', 'c: Option<Un>', 'd: (Un,())', 'e: ()', 'f: Option<Option<()>>', 'g: Mp0')
ROOTS += ['Vec<Sec>', 'Option<SecE>', '(Sec,SecE)', 'Vec<SecN>', 'Vec<DocE>', 'Vec<Vec<u8>>', 'HashMap<String,Sec>', 'Vec<Option<Sec>>', '[SecE;2]', 'Arc<Sec>']

# --- reflection: everything a declaration can say
ALL = 'Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash'
FL = 'Clone, Debug, Default, PartialEq, PartialOrd'
struct('Net', 'a: Ipv4Addr', 'b: Ipv6Addr', 'c: IpAddr', 'd: SocketAddr', 'p: PathBuf', 'o: Option<IpAddr>', derive='Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash')
struct('Strs', "a: &'static str", "b: Cow<'static, str>", "c: Option<&'static str>", "d: Vec<Cow<'static, str>>", 'p: PathBuf', derive=ALL)
struct('Big', 'a: u128', 'b: i128', 'c: NonZeroU128', 'd: NonZeroI128', 'e: usize', 'f: isize', derive='Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash')
struct('Every', 'a: u8', 'b: i32', 'c: String', 'd: char', 'e: bool', 'f: Option<String>', 'g: (u8,i16)', 'h: BTreeMap<u8,String>', 'i: [i8;2]', 'j: Vec<u16>', 'k: ()', derive=ALL)
struct('EvFl', 'a: f32', 'b: f64', 'c: Option<f64>', 'd: (f32,u8)', 'e: [f64;2]', 'f: Vec<f32>', derive=FL)
enum('EvEn', 'u8', V('A'), V('B', 'u8', 'String'), V('C', 'x: i64', 'y: Option<char>'), V('D', 'Every'), V('E', disc=200), derive='Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash')
enum('EvEf', 'i32', V('P', 'f64'), V('Q', 'x: f32', 'b: bool'), V('N'), derive='Clone, Debug, PartialEq, PartialOrd')
struct('Disp', 'a: u8', 'b: String', derive=ALL + ', Copy'.replace(', Copy', ''), extra='impl std::fmt::Display for Disp { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { write!(f, "<{}|{}>", self.a, self.b) } }')
struct('Cp', 'a: u8', 'b: i64', 'c: char', 'd: Option<bool>', derive=ALL + ', Copy')
tstruct('CpT', 'u16', 'f32', derive='Clone, Copy, Debug, PartialEq, PartialOrd')
ustruct('CpU', derive=ALL + ', Copy')
struct('Own1', 'a: u8', 'b: u8', derive='Debug, Clone, Eq', extra='impl PartialEq for Own1 { fn eq(&self, o: &Own1) -> bool { self.a == o.a } } impl PartialOrd for Own1 { fn partial_cmp(&self, o: &Own1) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } } impl Ord for Own1 { fn cmp(&self, o: &Own1) -> std::cmp::Ordering { o.a.cmp(&self.a) } } impl std::hash::Hash for Own1 { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.a.hash(h) } }')
# one trait at a time
for t in ('Clone', 'Debug', 'Default', 'PartialEq'): struct('One' + t, 'a: u8', 'b: Tk', derive=t)
struct('OneEq', 'a: u8', derive='PartialEq, Eq')
struct('OnePo', 'a: u8', 'b: f32', derive='PartialEq, PartialOrd')
struct('OneHash', 'a: u8', 'b: String', derive='Hash')
struct('HasOne', 'a: OneClone', 'b: Vec<OneDebug>', 'c: Option<OneDefault>', 'd: (OnePartialEq,OneEq)', 'e: [OneHash;2]', 'f: HashMap<u8,OneEq>', 'g: Vec<OnePo>', derive='')
# generics
struct('Gb', 'v: T', 'w: Vec<T>', generics='T: Clone + Debug + PartialEq', src=['#[doc = " bounds"]'], doc=[' bounds'])
struct('Gw', 'a: A', 'b: Option<B>', generics='A, B: Default', where='A: Clone + Debug, B: Clone + Debug', derive='Clone, Debug')
struct('Gc', 'a: [T;N]', 'n: u8', generics='T: Copy + Debug + PartialEq + Clone, const N: usize', derive='Clone, Debug, PartialEq')
struct('Lt', "a: &'a str", "b: Cow<'a, str>", 'c: u8', generics="'a", derive='Clone, Debug, PartialEq, Eq, Hash')
struct('Lt2', "a: &'a [T]", "b: Option<&'b str>", generics="'a, 'b, T: Debug + 'static", derive='Debug')
tstruct('Gt', 'T', 'PhantomData<T>'.replace('PhantomData<T>', 'u8'), generics='T: Debug', derive='Debug')
enum('Ge', 'u8', V('A', 'T', 'U2'), V('B', 'x: Vec<T>', 'y: U2'), V('C'), generics='T: Clone + Debug, U2: Clone + Debug', derive='Clone, Debug')
enum('Ge2', 'u16', V('L', "l: &'a str", 'o: Option<T>'), V('R', "s: &'a str", 't: T', disc=9), generics="'a, T: Debug + PartialEq", derive='Debug, PartialEq')
# names
struct('Raw', 'r#type: u8', 'r#fn: String', 'plain: bool', 'é: u16', '_u: i8', '__: u8')
enum('RawE', 'u8', V('r#Yield', 'u8'), V('Plain', 'r#in: u8', 'r#match: Option<u8>'), V('É'))
struct('Rn', F('a: u8', rename=''), F('b: u8', rename='with "quotes" and \\ and {braces}', lit='"with \\"quotes\\" and \\\\ and {braces}"'), F('c: u8', rename='raw " # string', lit='r##"raw " # string"##'),
       F('d: u8', rename='tab\tnew\nline', lit='"tab\\tnew\\nline"'), F('e: u8', rename='日本 é 😀', lit='"日本 é \\u{1F600}"'), F('f: u8', rename='a', lit='"\\x61"'), F('g: u8'))
enum('RnE', 'u8', V('A', F('x: u8', rename='the x'), F('y: u8')), V('B', F('_0: u8', rename='first'), F('_1: u8'), kind='tuple'), derive='Debug')
# documentation
struct('Dc', F('a: u8', doc=[' "quoted" \\ {braces} \\n', '\ttab', ''], src=['/// "quoted" \\ {braces} \\n', '///\ttab', '///']), F('b: u8', doc=[' block '], src=['/** block */']),
       F('c: u8', doc=['explicit "q"', ' then', 'raw \\'], src=['#[doc = "explicit \\"q\\""]', '/// then', '#[doc = r"raw \\"]']), F('d: u8', doc=[' with others'], src=['#[allow(dead_code)]', '/// with others', '#[doc(hidden)]', '#[cfg(all())]']),
       F('e: u8', doc=[' unicode é 日本 😀 '], src=['/// unicode é 日本 😀 ']), F('f: u8'), doc=['  leading', ' # Heading', '', ' ```', ' code "x" \\', ' ```'])
tstruct('DcT', F('0: u8', doc=[' inline'], src=['#[doc = " inline"]']), F('1: u8', doc=[' a', ' b'], src=['#[doc = " a"]', '#[doc = " b"]']))
ustruct('DcU', doc=[' a unit', ' documented'])
enum('DcE', 'u8', V('A', doc=[' "A" \\'], src=['/// "A" \\']), V('B', F('_0: u8', doc=['f'], src=['#[doc = "f"]']), kind='tuple', doc=[' B {} '], src=['/// B {} ', '#[allow(unused)]']), V('C', F('x: u8', doc=[' x'], src=['/// x'])), doc=[' E'])
# attributes nobody knows
struct('Att', F('a: u8', arb=['foo']), F('b: u8', arb=['foo = 3', 'bar(baz, 4)', 'quux = "s"']), F('c: u8', arb=['x::y'], sensitive=True, rename='see', default=''), F('d: String', sensitive=True, vis=''), F('e: u8', vis='pub(crate) ', default='seven'),
       attrs=['tool = "x"', 'deny_unknown_fields', 'lone', 'call(a, b = 2)', 'default'], extra='impl Att { } fn seven() -> u8 { 7 }', derive=DERIVE + ', Default')
tstruct('AttT', F('0: u8', arb=['k = 1'], sensitive=True), F('1: u8', rename='one'), attrs=['t'])
enum('AttE', 'u8', V('A', F('x: u8', arb=['z'], sensitive=True, rename='ex'), F('y: u8', default='')), attrs=['on_enum', 'deny_unknown_fields'])
ustruct('AttU', attrs=['unity', 'deny_unknown_fields'])
# several attributes in one list
struct('Comma', F('a: u8', arb=['named'], sensitive=True, facet=['sensitive, named']), F('b: u8', default='', rename='bee', facet=['default, rename = "bee"']),
       F('c: u8', default='seven', sensitive=True, arb=['foo(1, 2)'], facet=['default = "seven", sensitive, foo(1, 2)']), F('d: u8', sensitive=True, default='', facet=['sensitive, default']))
struct('CommaArb', F('a: u8', arb=['named'], sensitive=True, facet=['named, sensitive']))
struct('CommaRen', F('a: u8', rename='ay', sensitive=True, facet=['rename = "ay", sensitive']))
# layouts
struct('LyC', 'a: u8', 'b: u32', 'c: u16', 'd: u64', 'e: u8', repr='C')
struct('LyR', 'a: u8', 'b: u32', 'c: u16', 'd: u64', 'e: u8')
struct('LyA', 'a: u8', 'b: u16', repr='align(32)')
struct('LyCA', 'a: u8', 'b: LyA', 'c: u8', repr='C, align(64)')
tstruct('LyT', 'u64', derive='Clone, Debug, PartialEq, Default')
NAMED['LyT']['repr'] = 'transparent'
struct('LyZ', 'a: ()', 'b: [u64;0]', 'c: Un', 'd: u8', 'e: [Un;3]')
struct('LyN', 'a: (u8,u32,u8)', 'b: [LyC;2]', 'c: Option<LyA>', 'd: LyT', 'e: Option<Vec<u8>>', 'f: char', 'g: bool', 'h: u128')
enum('LyU8', 'u8', V('A', 'u8', 'u64', 'u8'), V('B', 'x: u16'), V('C', 'LyA'), V('Z'))
enum('LyU64', 'u64', V('A', 'u8'), V('B', disc=0x7fffffffffffffe, lit='0x7ff_ffff_ffff_fffe'))
enum('LyI8', 'i8', V('A', disc=5), V('B', 'u32'), V('C', disc=127), V('D', 'String', disc=0, lit='0b0'))
enum('LyI16', 'i16', V('A', 'u8', disc=0o17, lit='0o17'), V('B', 'u64'))
enum('LyU32', 'u32', V('A', disc=1_000_000, lit='1_000_000'), V('B', 'u8'), V('C', 'x: LyA', disc=0xffff_ffff, lit='0xffff_ffff'))
enum('LyI32', 'i32', V('A', 'u8'), V('B', 'LyC'))
enum('LyI64', 'i64', V('A', 'u8', 'u16'), V('B', kind='tuple'), V('C', kind='struct'))
enum('LyUs', 'usize', V('A', 'u8'), V('B', 'u128'))
enum('LyIs', 'isize', V('A', 'u8'), V('B', 'u8', 'u8', 'u32', disc=77))
enum('LyCn', 'C', V('A', 'u8', 'u64'), V('B', 'x: u8'), V('C'), V('D', 'LyA'))
enum('LyCu8', 'u8', V('A', 'u8', 'u64'), V('B', 'x: u16', 'y: u8'), V('C', disc=9), rsrc=['#[repr(C, u8)]'])
enum('LyCi16', 'i16', V('A', 'u8', 'u64'), V('B', 'x: u16', 'y: u8'), V('C', disc=9), rsrc=['#[repr(C)]', '#[repr(i16)]'])
enum('LyCd', 'C', V('A', disc=70000), V('B', disc=3), V('C'), V('D', disc=0), V('E', disc=90000, lit='90_000'), derive=ALL.replace('Default, ', ''))
enum('LyCe', 'i16', V('A', 'u8', disc=500), V('B', disc=3), V('C', 'x: u16'), V('D', 'u8', 'String', disc=0), rsrc=['#[repr(C, i16)]'])
enum('LyDu', 'u8', V('A', disc=9), V('B'), V('C', disc=2), V('D'), V('E', disc=0), V('F', disc=255), V('G', disc=4), derive=ALL.replace('Default, ', ''))
enum('LyTC', 'u32', V('A', 'u8'), V('B', 'u64'), rsrc=['#[repr(u32, C)]'])
struct('Oq', F('h: Arc<Hidden>', opaque=True), 'n: u8', derive='Clone')
struct('Wk', 's: Arc<Tk>', 'n: u8', 'w: Weak<Tk>', derive='Clone')
struct('Ph', 'a: PhU8', 'b: PhNo', 'c: u8', derive=ALL)
struct('Hm', 'a: HashMap<u8,u16,Hs>', 'b: HashMap<u8,u16>', derive='Clone, Debug, PartialEq')
tstruct('T12', '(u8,u16,u32,u64,i8,i16,i32,i64,bool,char,(),u8)', '(u8,)', '((u8,),(u16,u8))', derive='Clone, Debug, PartialEq')
struct('Slc', "a: &'static [u8]", "b: &'static [&'static str]", "c: Option<&'static [Disp]>", derive='Clone, Debug, PartialEq')
struct('W100', *[f'f{i}: u8' for i in range(100)], derive='Clone')
enum('E40', 'u8', *[V(f'V{i}') if i % 3 else V(f'V{i}', 'u8') for i in range(40)])
ROOTS += ['Gb<u8>', 'Gb<String>', 'Gb<EvEn>', 'Gw<u8,String>', 'Gw<Tk,Vec<u8>>', 'Gc<u8,3>', 'Gc<char,0>', "Lt<'static>", "Lt2<'static,'static,u8>", "Lt2<'static,'static,String>", 'Gt<Vec<NoTr>>'.replace('Vec<NoTr>', 'u32'), 'Ge<u8,String>',
          'Ge<Tk,Tk>', "Ge2<'static,u8>", "&'static [u8]", "&'static [String]", "&'static [&'static [u8]]", "&'static [f32]", 'Vec<Every>', 'Option<Every>', '[Every;2]', '(Every,EvFl)', 'Arc<Every>', 'HashMap<String,Every>', 'BTreeMap<Cp,EvFl>',
          'Vec<EvFl>', 'Option<EvFl>', '[f64;3]', '(f64,f32)', 'Vec<EvEn>', 'Option<EvEn>', 'Vec<char>', 'Option<char>', 'BTreeMap<String,Option<u8>>', 'HashMap<IpAddr,u8>', 'Vec<Option<Vec<u8>>>', '[u8;0]', '[String;1]', '[NoTr;2]', '[OneHash;2]',
          '(NoTr,u8)', '(u8,)', '(OneClone,)', 'Arc<NoTr>', 'Arc<Arc<u8>>', 'Vec<Arc<String>>', 'Weak<u8>', 'HashMap<u8,u8,Hs>', 'HashMap<u8,NoTr>', 'BTreeMap<u8,OneDebug>', 'Option<OnePo>', 'Vec<OneEq>', 'Vec<OneHash>', 'Option<OneHash>', 'Vec<Disp>', 'Option<Disp>', '[Disp;2]',
          '(Disp,Disp)', 'Option<Arc<Disp>>', 'Option<(u8,u8)>', '(u8,u16,u32,u64,i8,i16,i32,i64,bool,char,(),u8)', '(u8,u8,u8,u8,u8,u8,u8)', '(String,u8,Vec<u8>,f32,Option<u8>,char)', 'Option<IpAddr>', 'Vec<SocketAddr>', 'Option<f64>',
          '(u8,u16,u8,u16,u8,u16,u8,u16)', '(u8,u16,u8,u16,u8,u16,u8,u16,u8)', '(u8,u16,u8,u16,u8,u16,u8,u16,u8,u16)', '(u8,u16,u8,u16,u8,u16,u8,u16,u8,u16,u8)']

# --- declared at random (always the same ones): what nobody thought of
import random as _random
_r = _random.Random(20251119)
_NUMS = INTS + list(NZ)[:10]
_pick = _r.choice
def _pct(p): return _r.random() * 100 < p
_WORDS = ['a', 'b', 'id', 'name', 'x1', 'is_on', 'value', 'Kind', 'kids', 'left_over', 'n', 'zz', 'tag', 'key', 'v', 'i', 'data', 'len', 'T', '_q', 'ünï', 'with_a_rather_long_name_of_many_words']
_VNAMES = ['A', 'B', 'None', 'Some', 'Ok', 'Unit', 'Tuple', 'Struct', 'Zed', 'AlphaBeta', 'x', 'Self_', 'V1', 'V2', 'Vv', 'É', 'Err', 'Default', 'String']
_HAS_DEFAULT = set(INTS + ['bool', 'char', 'String', 'f32', 'f64', 'Tk', '()'])
def _default(t): return t in _HAS_DEFAULT or t.startswith(('Vec<', 'Option<', 'HashMap<', 'BTreeMap<'))
def _names(n, words): return _r.sample(words, n) if n <= len(words) else words + [f'm{i}' for i in range(n - len(words))]
def _attrs(t, sens=15, ren=12, dflt=12, doc=15, arb=6, renames=('other', 'né', 'A b', 'type')):
    a = []
    if sens and _pct(sens): a.append('sensitive')
    if ren and _pct(ren): a.append('rename=%s%d' % (_pick(renames), _r.randrange(1000)))
    if dflt and _pct(dflt) and _default(t): a.append('default')
    if doc and _pct(doc): a += ['doc= ' + _pick(['about it', 'twice', '"quoted"']) for _ in range(_r.randrange(1, 3))]
    if arb and _pct(arb): a = [x for x in a if x.startswith(('doc', 'default'))] + [_pick(['spare', 'level = 3', 'call(x)'])]
    return (' | ' + '; '.join(a)) if a else ''
def _count(): return _pick([0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 9, 12])
def _fields(pool, n, named, **kw):
    ts = [_pick(pool) for _ in range(n)]
    return [(f'{w}: ' if named else '') + t + _attrs(t, **kw) for w, t in zip(_names(n, _WORDS), ts)]
def _container(pool, name, denys=8, **kw):
    doc = [' random'] if _pct(20) else []
    named = _pct(70)
    fs = _fields(pool, max(1, _count()), named, **kw)
    if named: struct(name, *fs, doc=doc, attrs=['deny_unknown_fields'] if _pct(denys) else [], repr='C' if _pct(15) else None)
    else:
        fs = [field(f'{i}: {f}') for i, f in enumerate(fs)]
        tstruct(name, *fs, doc=doc)
_RANGE = {'u8': (0, 255), 'i8': (0, 127), 'u16': (0, 65535), 'i16': (0, 32767), 'u32': (0, 2 ** 32 - 1), 'i32': (0, 2 ** 31 - 1), 'u64': (0, 2 ** 62), 'i64': (0, 2 ** 62), 'usize': (0, 2 ** 40), 'isize': (0, 2 ** 40), 'C': (0, 2 ** 31 - 1)}
def _enum(pool, name, **kw):
    rp = _pick(list(_RANGE))
    nv = _pick([1, 2, 3, 4, 5, 6, 8])
    names = _names(nv, _VNAMES)
    lo, hi = _RANGE[rp]
    vs, used, disc = [], set(), -1
    for w in names:
        # a discriminant may jump anywhere, but those that count on from it have to be free
        d = None
        if rp != 'C' and _pct(30):
            d = _r.randrange(lo, min(hi - 20, lo + _pick([40, 100, 10 ** 6, 2 ** 40])) + 1)
        disc = d if d is not None else disc + 1
        if disc in used or disc > hi - 10:
            disc = d = next(x for x in range(lo, hi) if x not in used and all(x + k not in used for k in range(10)))
        used.add(disc)
        kind = _pick(['unit', 'tuple', 'tuple', 'struct', 'struct'])
        fs = [] if kind == 'unit' else _fields(pool, max(1, _pick([1, 1, 2, 3, 4, 6])), kind == 'struct', **{**kw, 'dflt': 0})
        if kind == 'tuple': fs = [field(f'_{i}: {f}') for i, f in enumerate(fs)]
        vs.append(V(w, *fs, disc=d, kind=kind, doc=[' of ' + w] if _pct(15) else []))
    enum(name, rp, *vs, doc=[' random'] if _pct(20) else [])
_LEAF = ['Tk'] * 6 + INTS + list(NZ)[:10] + ['()', 'bool', 'char', 'String', 'String', 'f32', 'f64', "&'static str", "Cow<'static, str>", 'PathBuf', 'IpAddr', 'SocketAddr', 'u128', 'NonZeroU128']
_OLD = ['P2', 'Mix', 'Un', 'En', 'Nest', 'KeyS', 'Every', 'EvEf', 'Sec', 'SecE', 'DocE', 'LyC', 'LyU64', 'Zst', 'Vec<Tk>', 'Vec<u8>', 'Vec<String>', 'Vec<Un>', 'Vec<P2>', 'Option<Tk>', 'Option<u8>', 'Option<String>', 'Option<Option<Tk>>',
        'HashMap<u8,Tk>', 'HashMap<String,Tk>', 'BTreeMap<u8,Tk>', '(Tk,u8)', '[Tk;2]', '[u8;3]', 'Arc<Tk>', 'Vec<Vec<Tk>>', 'Option<Vec<Tk>>', 'Option<P2>', 'HashMap<u8,En>', '(u8,)']
_gen = list(_LEAF) + _OLD
for _i in range(16):
    _n = f'Rg{_i:02}'
    (_enum if _pct(45) else _container)(_gen, _n)
    _gen += [_n] * 3 + ([f'Vec<{_n}>', f'Option<{_n}>'] if _pct(40) else [])
# read and written as JSON
_js = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'usize', 'f32', 'f64', 'bool', 'String', 'String', 'NonZeroU8', 'NonZeroI64', 'Vec<u8>', 'Vec<String>', 'Option<u8>', 'Option<String>', 'Option<f32>', 'Vec<Option<i64>>', 'Flat', 'Vec<Flat>', 'MpI', 'Vec<Vec<i32>>', 'Mp0']
for _i in range(8):
    _n = f'Rj{_i:02}'
    struct(_n, *_fields(_js, max(1, _count()), True, sens=0, arb=0, ren=18, dflt=25, doc=5), attrs=['deny_unknown_fields'] if _pct(25) else [])
    _js += [_n] + ([f'Vec<{_n}>', f'Option<{_n}>'] if _pct(40) else [])
# MessagePack
_mp = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'bool', 'String', 'String', 'MpI', 'Mp0', 'MpT', 'MpX']
for _i in range(5):
    _n = f'Rm{_i:02}'
    struct(_n, *_fields(_mp, max(1, _count()), True, sens=0, arb=0, ren=0, dflt=0, doc=5))
    _mp += [_n]
# TOML
_tm = ['u8', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'f32', 'f64', 'bool', 'String', 'String', 'Option<u8>', 'Option<String>', 'Option<bool>', 'Vec<String>', 'Vec<Vec<i32>>', 'CfgO', 'Option<CfgO>', 'Mode', 'Option<Mode>', 'Tv', 'Vec<Mode>', 'HashMap<String,u8>', 'HashMap<String,CfgO>', 'Shp']
for _i in range(6):
    _n = f'Rt{_i:02}'
    (_enum if _i in (2, 4) else lambda p, n, **kw: struct(n, *_fields(p, max(2, _count()), True, **kw)))(_tm, _n, sens=0, arb=0, ren=0, dflt=0, doc=5)
    _tm += [_n] + ([f'Option<{_n}>'] if _pct(60) else [])
# YAML and forms
_yu = ['u64', 'u64', 'String', 'String', 'FormV', 'YmI']
for _i in range(4):
    _n = f'Ru{_i:02}'
    struct(_n, *_fields(_yu, max(2, _count()), True, sens=0, arb=0, ren=0, dflt=0, doc=5))
    _yu += [_n]
# arguments
for _i in range(5):
    _ts = [_pick(['bool', 'bool', 'String', 'String', 'u8', 'i64', 'f64', 'char', 'usize']) for _ in range(_pick([2, 3, 4, 5, 7]))]
    struct(f'Ra{_i:02}', *[f'{w}: {t} | {"named" if t == "bool" or _pct(50) else "positional"}' for w, t in zip(_names(len(_ts), [w for w in _WORDS if w.isascii()]), _ts)], derive='Debug')
