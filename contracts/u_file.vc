//@use p_base.rs p_svd.rs p_std.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs p_hmap.rs
//@use p_fs.rs
//@import p_load.rs p_dict.rs p_inc.rs
//@arg Tracked(&mut *w) =>> load_patch get_encoder_config open_svd yaml_includes
//@wrap validate_all
verus! {
#[verifier::external_type_specification] pub struct ExVL(ValidateLevel);
//@type src/patch/mod.rs | EnumAutoDerive
//@type src/patch/mod.rs | Config
pub use self::svd_encoder::Config as EncoderConfig;
// TRUSTED (dependencies): parsing, encoding and validating do not touch files; what they give is named here
pub uninterp spec fn parsed(text: Seq<char>, level: ValidateLevel, d: Device) -> bool;
pub uninterp spec fn encoded(d: Device, c: EncoderConfig, s: Seq<char>) -> bool;
pub uninterp spec fn valid(d: Device, l: ValidateLevel) -> bool;
// the device after the patch (process_device, properties C02 to C17, C23, C29)
pub uninterp spec fn processed(a: Device, h: Hash, c: Config, b: Device) -> bool;
pub mod svd_parser {
    use super::*;
    pub struct Config { pub validate_level: ValidateLevel, pub ignore_enums: bool }
    impl Config { #[verifier::external_body] pub fn default() -> (r: Config) ensures r == config_default() { unimplemented!() } }
    #[verifier::external_body] pub fn parse_with_config(s: &str, c: &Config) -> (r: Result<Device>) ensures r is Ok ==> parsed(s@, c.validate_level, r.unwrap()) && xml_value(s@, *c, r.unwrap()) { unimplemented!() }
    pub uninterp spec fn xml_value(s: Seq<char>, c: Config, d: Device) -> bool;
    pub uninterp spec fn config_default() -> Config;
    impl Config { #[verifier::external_body] pub fn ignore_enums(self, b: bool) -> (r: Config) ensures r.ignore_enums == b, r.validate_level == self.validate_level { unimplemented!() } }
    pub uninterp spec fn with_properties(a: Device, b: Device) -> bool;
    pub uninterp spec fn unrolled(a: Device, b: Device) -> bool;
    #[verifier::external_body] pub fn expand_properties(d: &mut Device) ensures with_properties(*old(d), *final(d)) { unimplemented!() }
    #[verifier::external_body] pub fn expand(d: &Device) -> (r: Result<Device>) ensures r is Ok ==> unrolled(*d, r.unwrap()) { unimplemented!() }
}
pub mod svd_encoder {
    use super::*;
    pub struct Config { pub x: u8 }
    pub uninterp spec fn config_default() -> Config;
    impl Config { #[verifier::external_body] pub fn default() -> (r: Config) ensures r == config_default() { unimplemented!() } }
    #[verifier::external_body] pub fn encode_with_config(d: &Device, c: &EncoderConfig) -> (r: Result<String>) ensures r is Ok ==> encoded(*d, *c, r.unwrap()@) { unimplemented!() }
}
pub trait DevX { fn validate_all_v(&self, l: ValidateLevel) -> Result<()>; }
impl DevX for Device { #[verifier::external_body] fn validate_all_v(&self, l: ValidateLevel) -> (r: Result<()>) ensures r is Ok ==> valid(*self, l) { unimplemented!() } }
#[verifier::external_body] pub fn Device__process(d: &mut Device, h: &Hash, c: &Config) -> (r: Result<()>) ensures r is Ok ==> processed(*old(d), *h, *c, *final(d)) { unimplemented!() }
pub open spec fn result_of(text: Seq<char>, y: Yaml, ec: EncoderConfig, c: Config, out: Seq<u8>) -> bool {
    exists|a: Device, b: Device, s: Seq<char>| #[trigger] parsed(text, ValidateLevel::Disabled, a) && yhash(y) is Some && #[trigger] processed(a, yhash(y).unwrap(), c, b) && valid(b, c.post_validate) && #[trigger] encoded(b, ec, s) && out == utf8(s)
}
//@fn src/patch/mod.rs | process_reader
//@sig pub fn process_reader<R: Read>(mut svd: R, patch: &Yaml, format_config: &EncoderConfig, config: &Config) -> (r: Result<Cursor>)
//@sub dev.process( =>> Device__process(&mut dev,
//@spec
    ensures r is Ok ==> result_of(svd.text(), *patch, *format_config, *config, r.unwrap().v@),
//@start
    let ghost t_ = svd.text();
//@after "svd.read_to_string"
    proof { assert(contents@ =~= t_); }
//@after "let mut dev ="
    let ghost a_ = dev;
    proof { assert(parsed(t_, ValidateLevel::Disabled, a_)); }
//@after "dev.process("
    proof { assert(yhash(*patch) is Some);assert(processed(a_, yhash(*patch).unwrap(), *config, dev)); }
//@after "dev.validate_all("
    proof { assert(valid(dev, config.post_validate)); }
//@end

// ---- the files a command reads and the file it writes ----
pub open spec fn loaded(p: Seq<char>, fx: Seq<Ev>, y: Yaml) -> bool {
    docs_of(disk(p, fx)).len() > 0 && yhash(docs_of(disk(p, fx))[0]) is Some && yhash(y) is Some && exists|t: Inc, v: Seq<Seq<char>>| #[trigger] takes(t, fx, at_path(yhash(docs_of(disk(p, fx))[0]).unwrap(), p), yhash(y).unwrap(), v)
}
//@fn src/patch/mod.rs | load_patch
//@param Tracked(w): Tracked<&mut World>
//@sub docs.into_iter().next().unwrap() =>> first_doc(docs)
//@spec
    ensures final(w).fx == old(w).fx, r is Ok ==> loaded(yaml_file@, old(w).fx, r.unwrap()),
//@after "read_to_string"
    proof { assert(contents@ =~= disk(yaml_file@, old(w).fx)); }
//@start
    broadcast use axiom_str_of;
//@before "root.insert("
    let ghost h_ = *root;
//@after "root.insert("
    let ghost h1_ = *root;
    proof { assert(h1_ == at_path(h_, yaml_file@)); }
//@after "yaml_includes(root)?"
    let ghost q_ = *root;
    proof { assert(exists|t: Inc, v: Seq<Seq<char>>| #[trigger] takes(t, w.fx, h1_, q_, v)); assert(yhash(doc) == Some(q_)); assert(yhash(docs_of(disk(yaml_file@, w.fx))[0]) == Some(h_)); let (t_, v_) = choose|t: Inc, v: Seq<Seq<char>>| #[trigger] takes(t, w.fx, h1_, q_, v); assert(takes(t_, w.fx, at_path(yhash(docs_of(disk(yaml_file@, w.fx))[0]).unwrap(), yaml_file@), yhash(doc).unwrap(), v_)); assert(loaded(yaml_file@, w.fx, doc)); }
//@end
// where the patched device goes, and what goes there
pub open spec fn patched(yaml: Seq<char>, out: Option<Seq<char>>, ec: EncoderConfig, c: Config, fx: Seq<Ev>, p: Seq<char>, x: Seq<u8>) -> bool {
    exists|y: Yaml| #[trigger] loaded(yaml, fx, y) && yhash(y) is Some && yget(yhash(y).unwrap(), "_svd"@) is Some && ystr(yget(yhash(y).unwrap(), "_svd"@).unwrap()) is Some && {
        let svd = abs_of(yaml, ystr(yget(yhash(y).unwrap(), "_svd"@).unwrap()).unwrap());
        p == (match out { Some(o) => o, None => with_extension(svd, "svd.patched"@) }) && result_of(disk(svd, fx), y, ec, c, x) }
}
pub type StrMap = std::collections::HashMap<String, String>;
// TRUSTED (serde): reading values from text
pub uninterp spec fn yaml_value<T>(s: Seq<char>, t: T) -> bool;
pub uninterp spec fn json_value<T>(s: Seq<char>, t: T) -> bool;
pub mod serde_yaml {
    use super::*;
    #[verifier::external_body] pub fn from_str<T>(s: &str) -> (r: Result<T>) ensures r is Ok ==> yaml_value(s@, r.unwrap()) { unimplemented!() }
    #[verifier::external_body] pub fn to_string(d: &Device) -> (r: Result<String>) ensures r is Ok ==> yaml_value(r.unwrap()@, *d) { unimplemented!() }
}
pub mod serde_json {
    use super::*;
    #[verifier::external_body] pub fn from_str<T>(s: &str) -> (r: Result<T>) ensures r is Ok ==> json_value(s@, r.unwrap()) { unimplemented!() }
    #[verifier::external_body] pub fn to_string_pretty(d: &Device) -> (r: Result<String>) ensures r is Ok ==> json_value(r.unwrap()@, *d) { unimplemented!() }
}
pub uninterp spec fn configured(a: EncoderConfig, m: StrMap, b: EncoderConfig) -> bool;
#[verifier::external_body] pub fn update_all(c: &mut EncoderConfig, m: &StrMap) ensures configured(*old(c), *m, *final(c)) { unimplemented!() }
//@type src/lib.rs | ConfigFormat
pub open spec fn config_format(s: Seq<char>) -> Option<ConfigFormat> {
    if s == "yml"@ || s == "yaml"@ || s == "YAML"@ { Some(ConfigFormat::Yaml) } else if s == "json"@ || s == "JSON"@ { Some(ConfigFormat::Json) } else { None }
}
//@fn src/lib.rs | FromStr for ConfigFormat | from_str
//@name ConfigFormat__from_str
//@sig pub fn ConfigFormat__from_str(s: &str) -> (r: Result<ConfigFormat>)
//@sub Self:: =>> ConfigFormat::
//@spec
    ensures match r { Ok(f) => config_format(s@) == Some(f), Err(_) => config_format(s@) is None }
//@start
    broadcast use axiom_str_ext;
//@end
pub open spec fn formatting(c: Option<Seq<char>>, fx: Seq<Ev>, e: EncoderConfig) -> bool {
    match c { None => e == svd_encoder::config_default(), Some(p) => extension_of(p) is Some && exists|m: StrMap| #[trigger] configured(svd_encoder::config_default(), m, e) && match config_format(extension_of(p).unwrap()) {
        Some(ConfigFormat::Yaml) => yaml_value(disk(p, fx), m), Some(ConfigFormat::Json) => json_value(disk(p, fx), m), None => false } }
}
//@fn src/lib.rs | get_encoder_config
//@sig pub fn get_encoder_config(format_config: Option<&Path>, Tracked(w): Tracked<&mut World>) -> (r: Result<EncoderConfig>)
//@sub ConfigFormat::from_str( =>> ConfigFormat__from_str(
//@sub config_map.iter().for_each(|(name, value)| config.update(name, value)) =>> update_all(&mut config, &config_map)
//@sub let config_map: std::collections::HashMap<String, String> =>> let config_map: StrMap
//@closure 1 |$1: &OsStr| -> (o: Option<&str>)
    ensures match o { Some(s) => s@ == $1@, None => true }
//@spec
    ensures final(w).fx == old(w).fx, r is Ok ==> formatting(optp(format_config), old(w).fx, r.unwrap())
//@after "read_to_string"
    proof { assert(config@ =~= disk(format_config@, old(w).fx)); }
//@end
pub open spec fn optp(p: Option<&Path>) -> Option<Seq<char>> { match p { Some(x) => Some(x@), None => None } }
// nothing was touched, or everything had succeeded and only writing the result failed
pub open spec fn partly(a: Seq<Ev>, b: Seq<Ev>, p: Seq<char>) -> bool { b == a || b == a.push(Ev::Create(p)) || exists|x: Seq<u8>| b == #[trigger] a.push(Ev::Create(p)).push(Ev::Write(p, x)) }
pub open spec fn fully(a: Seq<Ev>, b: Seq<Ev>, p: Seq<char>, x: Seq<u8>) -> bool { b == a.push(Ev::Create(p)).push(Ev::Write(p, x)) }
pub open spec fn patch_fx(yaml: Seq<char>, out: Option<Seq<char>>, fc: Option<Seq<char>>, c: Config, a: Seq<Ev>, b: Seq<Ev>, ok: bool) -> bool {
    exists|ec: EncoderConfig, p: Seq<char>, x: Seq<u8>| #[trigger] formatting(fc, a, ec) && #[trigger] patched(yaml, out, ec, c, a, p, x) && if ok { fully(a, b, p, x) } else { partly(a, b, p) }
}
//@fn src/patch/mod.rs | process_file
//@param Tracked(w): Tracked<&mut World>
//@sub std::io::copy( =>> io_copy(
//@spec
    ensures match r {
        Ok(_) => patch_fx(yaml_file@, optp(out_path), optp(format_config), *config, old(w).fx, final(w).fx, true),
        Err(_) => final(w).fx == old(w).fx || patch_fx(yaml_file@, optp(out_path), optp(format_config), *config, old(w).fx, final(w).fx, false),
    },
//@after "let doc ="
    proof { assert(loaded(yaml_file@, old(w).fx, doc)); }
//@after "let svdpath ="
    let ghost svd_ = svdpath@;
    proof { assert(yget(yhash(doc).unwrap(), "_svd"@) is Some); assert(svd_ == abs_of(yaml_file@, ystr(yget(yhash(doc).unwrap(), "_svd"@).unwrap()).unwrap())); }
//@after "let mut svd_out ="
    let ghost p_ = svdpath_out@; let ghost x_ = svd_out.v@;
    proof { assert(result_of(disk(svd_, old(w).fx), doc, encoder_config, *config, x_)); assert(patched(yaml_file@, optp(out_path), encoder_config, *config, old(w).fx, p_, x_)); assert(patch_fx(yaml_file@, optp(out_path), optp(format_config), *config, old(w).fx, old(w).fx, false)); }
//@end

// ---- conversion ----
//@type src/convert/convert_cli.rs | InputFormat
//@type src/convert/convert_cli.rs | OutputFormat
//@type src/convert/convert_cli.rs | ParserConfig
pub open spec fn known_format(s: Seq<char>) -> Option<int> {
    if s == "svd"@ || s == "SVD"@ || s == "xml"@ || s == "XML"@ { Some(0) } else if s == "yml"@ || s == "yaml"@ || s == "YAML"@ { Some(1) } else if s == "json"@ || s == "JSON"@ { Some(2) } else { None }
}
//@each T: Input Output
pub open spec fn nr_$T(f: $TFormat) -> int { match f { $TFormat::Xml => 0, $TFormat::Yaml => 1, $TFormat::Json => 2 } }
//@fn src/convert/convert_cli.rs | FromStr for $TFormat | from_str
//@name $TFormat__from_str
//@sig pub fn $TFormat__from_str(s: &str) -> (r: Result<$TFormat>)
//@sub Self:: =>> $TFormat::
//@spec
    ensures match r { Ok(f) => known_format(s@) == Some(nr_$T(f)), Err(_) => known_format(s@) is None }
//@start
    broadcast use axiom_str_ext;
//@end
// the given format, or the one the file name says
pub open spec fn format_$T(f: Option<$TFormat>, p: Seq<char>) -> Option<int> { match f { Some(x) => Some(nr_$T(x)), None => match extension_of(p) { Some(e) => known_format(e), None => None } } }
//@endeach
pub open spec fn read_device(text: Seq<char>, f: int, pc: ParserConfig, d: Device) -> bool {
    if f == 0 { exists|c: svd_parser::Config| c.ignore_enums == pc.ignore_enums && c.validate_level == svd_parser::config_default().validate_level && #[trigger] svd_parser::xml_value(text, c, d) }
    else if f == 1 { yaml_value(text, d) } else { json_value(text, d) }
}
pub open spec fn opened(p: Seq<char>, f: Option<InputFormat>, pc: ParserConfig, fx: Seq<Ev>, d: Device) -> bool {
    format_Input(f, p) is Some && exists|a: Device, b: Device| #[trigger] read_device(disk(p, fx), format_Input(f, p).unwrap(), pc, a)
        && (if pc.expand_properties { svd_parser::with_properties(a, b) } else { b == a }) && #[trigger] expanded(pc.expand, b, d)
}
pub open spec fn expanded(e: bool, b: Device, d: Device) -> bool { if e { svd_parser::unrolled(b, d) } else { d == b } }
//@fn src/convert/convert_cli.rs | open_svd
//@param Tracked(w): Tracked<&mut World>
//@sub InputFormat::from_str( =>> InputFormat__from_str(
//@closure 1 |$1: &OsStr| -> (o: Option<&str>)
    ensures match o { Some(s) => s@ == $1@, None => true }
//@spec
    ensures final(w).fx == old(w).fx, r is Ok ==> opened(in_path@, input_format, parser_config, old(w).fx, r.unwrap()),
//@before "let mut device ="
    proof { assert(format_Input(fi_, in_path@) == Some(nr_Input(input_format))); assert(input@ =~= disk(in_path@, old(w).fx)); }
//@start
    let ghost fi_ = input_format;
//@after "let mut device ="
    let ghost a_ = device; proof { assert(read_device(disk(in_path@, old(w).fx), nr_Input(input_format), parser_config, a_)); }
//@before "let device ="
    let ghost b_ = device; proof { assert(if parser_config.expand_properties { svd_parser::with_properties(a_, b_) } else { b_ == a_ }); }
//@tail
    proof { assert(expanded(parser_config.expand, b_, device)); assert(read_device(disk(in_path@, old(w).fx), format_Input(fi_, in_path@).unwrap(), parser_config, a_)); assert(opened(in_path@, fi_, parser_config, old(w).fx, device)); }
//@end
pub open spec fn written(f: int, d: Device, ec: EncoderConfig, s: Seq<char>) -> bool { if f == 0 { encoded(d, ec, s) } else if f == 1 { yaml_value(s, d) } else { json_value(s, d) } }
pub open spec fn convert_fx(i: Seq<char>, o: Seq<char>, f: Option<InputFormat>, g: Option<OutputFormat>, pc: ParserConfig, fc: Option<Seq<char>>, a: Seq<Ev>, b: Seq<Ev>, ok: bool) -> bool {
    exists|d: Device, ec: EncoderConfig, s: Seq<char>| #[trigger] opened(i, f, pc, a, d) && format_Output(g, o) is Some && #[trigger] formatting(fc, a, ec) && #[trigger] written(format_Output(g, o).unwrap(), d, ec, s)
        && if ok { fully(a, b, o, utf8(s)) } else { partly(a, b, o) }
}
pub trait AsBytesV { fn as_bytes_v(&self) -> &[u8]; }
impl AsBytesV for String { #[verifier::external_body] fn as_bytes_v(&self) -> (r: &[u8]) ensures r@ == utf8(self@) { self.as_bytes() } }
//@wrap as_bytes
//@fn src/convert/convert_cli.rs | convert
//@param Tracked(w): Tracked<&mut World>
//@sub OutputFormat::from_str( =>> OutputFormat__from_str(
//@closure 1 |$1: &OsStr| -> (o: Option<&str>)
    ensures match o { Some(s) => s@ == $1@, None => true }
//@spec
    ensures match r {
        Ok(_) => convert_fx(in_path@, out_path@, input_format, output_format, parser_config, optp(format_config), old(w).fx, final(w).fx, true),
        Err(_) => final(w).fx == old(w).fx || convert_fx(in_path@, out_path@, input_format, output_format, parser_config, optp(format_config), old(w).fx, final(w).fx, false),
    },
//@start
    let ghost fo_ = output_format;
//@before "File::create("
    proof { assert(written(format_Output(fo_, out_path@).unwrap(), device, config, output@)); assert(convert_fx(in_path@, out_path@, input_format, fo_, parser_config, optp(format_config), old(w).fx, old(w).fx, false)); }
//@end
}
fn main(){}
