//! The languages under simulation.
use crate::lang::{Lang, Of};

macro_rules! langs {
    (@new $l:path) => { <$l>::default() };
    (@new $l:path, $d:expr) => { $d };
    ($($name:ident $lang:path $({ $d:expr })? => |$c:ident| $new:expr;)*) => {
        pub fn get(name: &str) -> Box<dyn Lang> {
            match name {
                $(stringify!($name) => {
                    type L = $lang;
                    let $c: &'static L = Box::leak(Box::new(langs!(@new $lang $(, $d)?)));
                    Box::new(Of::<L, _>::new($new))
                })*
                _ => simrt::harness_error("unknown language"),
            }
        }
        pub static NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}
langs! {
    bash oak_bash::language::BashLanguage => |_c| oak_bash::parser::BashParser::new(_c);
    c oak_c::language::CLanguage => |_c| oak_c::parser::CParser::new(_c);
    cpp oak_cpp::CppLanguage => |_c| oak_cpp::CppParser::new(_c);
    csharp oak_csharp::CSharpLanguage => |_c| oak_csharp::CSharpParser::new(_c);
    css oak_css::language::CssLanguage => |_c| oak_css::parser::CssParser::new(_c);
    csv oak_csv::language::CsvLanguage => |_c| oak_csv::parser::CsvParser::new(_c);
    d oak_d::language::DLanguage => |_c| oak_d::parser::DParser::new(_c);
    dejavu oak_dejavu::DejavuLanguage => |_c| oak_dejavu::parser::DejavuParser::new(_c);
    dockerfile oak_dockerfile::DockerfileLanguage => |_c| oak_dockerfile::DockerfileParser::new(_c);
    dot oak_dot::language::DotLanguage => |_c| oak_dot::parser::DotParser::new(_c);
    elixir oak_elixir::ElixirLanguage => |_c| oak_elixir::parser::ElixirParser::new(_c);
    erlang oak_erlang::ErlangLanguage => |_c| oak_erlang::parser::ErlangParser::new(_c);
    go oak_go::language::GoLanguage => |_c| oak_go::parser::GoParser::new(_c);
    java oak_java::language::JavaLanguage => |_c| oak_java::parser::JavaParser::new(_c);
    json oak_json::language::JsonLanguage => |_c| oak_json::parser::JsonParser::new(_c);
    kotlin oak_kotlin::KotlinLanguage => |_c| oak_kotlin::parser::KotlinParser::new(_c);
    lean oak_lean::LeanLanguage => |_c| oak_lean::parser::LeanParser::new(_c);
    markdown oak_markdown::language::MarkdownLanguage => |_c| oak_markdown::parser::MarkdownParser::new(_c);
    mojo oak_mojo::MojoLanguage => |_c| oak_mojo::parser::MojoParser::new();
    nginx oak_nginx::NginxLanguage => |_c| oak_nginx::NginxParser::new(_c);
    perl oak_perl::PerlLanguage => |_c| oak_perl::parser::PerlParser::new(_c);
    php oak_php::language::PhpLanguage => |_c| oak_php::parser::PhpParser::new(_c);
    protobuf oak_protobuf::language::ProtobufLanguage => |_c| oak_protobuf::parser::ProtobufParser::new(_c);
    python oak_python::language::PythonLanguage => |_c| oak_python::parser::PythonParser::new(_c);
    r oak_r::language::RLanguage => |_c| oak_r::parser::RParser::new(_c);
    scala oak_scala::language::ScalaLanguage => |_c| oak_scala::parser::ScalaParser::new(_c);
    scheme oak_scheme::language::SchemeLanguage => |_c| oak_scheme::parser::SchemeParser::new(_c);
    scss oak_scss::language::ScssLanguage => |_c| oak_scss::parser::ScssParser::new(_c);
    solidity oak_solidity::SolidityLanguage => |_c| oak_solidity::parser::SolidityParser::new(_c);
    sql oak_sql::language::SqlLanguage => |_c| oak_sql::parser::SqlParser::new(_c);
    valkyrie oak_valkyrie::language::ValkyrieLanguage => |_c| oak_valkyrie::parser::ValkyrieParser::new(_c);
    von oak_von::language::VonLanguage => |_c| oak_von::parser::VonParser::new(_c);
    wat oak_wat::language::WatLanguage => |_c| oak_wat::parser::WatParser::new(_c);
    wolfram oak_wolfram::language::WolframLanguage => |_c| oak_wolfram::parser::WolframParser::new(_c);
    xml oak_xml::language::XmlLanguage => |_c| oak_xml::parser::XmlParser::new(_c);
    yaml oak_yaml::language::YamlLanguage => |_c| oak_yaml::parser::YamlParser::new(_c);
    tex oak_tex::language::TexLanguage => |_c| oak_tex::parser::TexParser::new(_c);
    html oak_html::language::HtmlLanguage => |_c| oak_html::parser::HtmlParser::new(Default::default());
    javascript oak_javascript::language::JavaScriptLanguage => |_c| oak_javascript::parser::JavaScriptParser::new(_c);
    ocaml oak_ocaml::OCamlLanguage => |_c| oak_ocaml::OCamlParser::new(_c);
    rust oak_rust::language::RustLanguage => |_c| oak_rust::parser::RustParser::new(_c);
    svelte oak_svelte::language::SvelteLanguage => |_c| oak_svelte::parser::SvelteParser::new(_c);
    actionscript oak_actionscript::ActionScriptLanguage => |_c| oak_actionscript::ActionScriptParser::new(_c);
    ada oak_ada::AdaLanguage => |_c| oak_ada::AdaParser::new(_c);
    apl oak_apl::AplLanguage => |_c| oak_apl::AplParser::new(_c);
    ascii_doc oak_ascii_doc::AsciiDocLanguage => |_c| oak_ascii_doc::AsciiDocParser::new(_c);
    bat oak_bat::language::BatLanguage => |_c| oak_bat::parser::BatParser::new(_c);
    clojure oak_clojure::ClojureLanguage => |_c| oak_clojure::ClojureParser::new(_c);
    cmd oak_cmd::language::CmdLanguage => |_c| oak_cmd::parser::CmdParser::new(_c);
    cobol oak_cobol::CobolLanguage => |_c| oak_cobol::CobolParser::new(_c);
    coq oak_coq::CoqLanguage => |_c| oak_coq::CoqParser::new(_c);
    crystal oak_crystal::CrystalLanguage => |_c| oak_crystal::CrystalParser::new(_c);
    dart oak_dart::DartLanguage => |_c| oak_dart::DartParser::new(_c);
    delphi oak_delphi::DelphiLanguage => |_c| oak_delphi::parser::DelphiParser::new(_c);
    dhall oak_dhall::DHallLanguage => |_c| oak_dhall::DHallParser::new(_c);
    django oak_django::DjangoLanguage => |_c| oak_django::DjangoParser::new(_c);
    elm oak_elm::ElmLanguage => |_c| oak_elm::parser::ElmParser::new(_c);
    fortran oak_fortran::FortranLanguage => |_c| oak_fortran::parser::FortranParser::new(_c);
    fsharp oak_fsharp::FSharpLanguage => |_c| oak_fsharp::parser::FSharpParser::new(_c);
    graphql oak_graphql::GraphQLLanguage { oak_graphql::GraphQLLanguage {} } => |_c| oak_graphql::parser::GraphQLParser::new(_c);
    groovy oak_groovy::language::GroovyLanguage => |_c| oak_groovy::parser::GroovyParser::new(_c);
    handlebars oak_handlebars::HandlebarsLanguage => |_c| oak_handlebars::HandlebarsParser::new(_c);
    haskell oak_haskell::HaskellLanguage => |_c| oak_haskell::HaskellParser::new(_c);
    hlsl oak_hlsl::HlslLanguage => |_c| oak_hlsl::HlslParser::new(_c);
    idl oak_idl::IdlLanguage => |_c| oak_idl::IdlParser::new(_c);
    ini oak_ini::IniLanguage => |_c| oak_ini::IniParser::new(_c);
    j oak_j::JLanguage => |_c| oak_j::JParser::new(_c);
    jasm oak_jasm::JasmLanguage => |_c| oak_jasm::JasmParser::new(_c);
    jasmin oak_jasmin::JasminLanguage => |_c| oak_jasmin::JasminParser::new(_c);
    javadoc oak_javadoc::JavadocLanguage => |_c| oak_javadoc::JavadocParser::new(_c);
    julia oak_julia::JuliaLanguage => |_c| oak_julia::JuliaParser::new(_c);
    llvm_ir oak_llvm_ir::LLvmLanguage => |_c| oak_llvm_ir::LLirParser::new(_c);
    lua oak_lua::LuaLanguage => |_c| oak_lua::LuaParser::new(_c);
    matlab oak_matlab::MatlabLanguage => |_c| oak_matlab::MatlabParser::new(_c);
    mermaid oak_mermaid::MermaidLanguage => |_c| oak_mermaid::MermaidParser::new(_c);
    msil oak_msil::MsilLanguage => |_c| oak_msil::MsilParser::new(_c);
    nim oak_nim::NimLanguage => |_c| oak_nim::NimParser::new(_c);
    nix oak_nix::NixLanguage => |_c| oak_nix::NixParser::new(_c);
    notedown oak_notedown::language::NotedownLanguage => |_c| oak_notedown::NoteParser::new(_c);
    objective_c oak_objective_c::ObjectiveCLanguage => |_c| oak_objective_c::ObjectiveCParser::new(_c);
    org_mode oak_org_mode::OrgModeLanguage => |_c| oak_org_mode::OrgModeParser::new(_c);
    pascal oak_pascal::PascalLanguage => |_c| oak_pascal::PascalParser::new(_c);
    powershell oak_powershell::PowerShellLanguage => |_c| oak_powershell::PowerShellParser::new(_c);
    prolog oak_prolog::PrologLanguage => |_c| oak_prolog::PrologParser::new(_c.clone());
    purescript oak_purescript::PurescriptLanguage => |_c| oak_purescript::PurescriptParser::new(_c);
    raku oak_raku::RakuLanguage => |_c| oak_raku::RakuParser::new(_c.clone());
    rbq oak_rbq::RbqLanguage => |_c| oak_rbq::RbqParser::new(_c);
    regex oak_regex::RegexLanguage => |_c| oak_regex::RegexParser::new(_c);
    ruby oak_ruby::RubyLanguage => |_c| oak_ruby::RubyParser::new(_c);
    sass oak_sass::SassLanguage => |_c| oak_sass::SassParser::new(_c);
    smalltalk oak_smalltalk::SmalltalkLanguage => |_c| oak_smalltalk::SmalltalkParser::new(_c);
    stylus oak_stylus::StylusLanguage => |_c| oak_stylus::StylusParser::new(_c);
    swift oak_swift::SwiftLanguage => |_c| oak_swift::SwiftParser::new(_c);
    tailwind oak_tailwind::TailwindLanguage => |_c| oak_tailwind::TailwindParser::new(_c);
    tcl oak_tcl::TclLanguage => |_c| oak_tcl::TclParser::new(_c);
    toml oak_toml::TomlLanguage => |_c| oak_toml::TomlParser::new(_c);
    twig oak_twig::TwigLanguage => |_c| oak_twig::TwigParser::new(_c);
    typescript oak_typescript::TypeScriptLanguage => |_c| oak_typescript::TypeScriptParser::new(_c);
    typst oak_typst::TypstLanguage => |_c| oak_typst::TypstParser::new(_c);
    vala oak_vala::ValaLanguage => |_c| oak_vala::ValaParser::new(_c);
    vampire oak_vampire::VampireLanguage => |_c| oak_vampire::VampireParser::new(_c);
    verilog oak_verilog::VerilogLanguage => |_c| oak_verilog::VerilogParser::new(_c);
    vhdl oak_vhdl::VhdlLanguage => |_c| oak_vhdl::VhdlParser::new(_c);
    vlang oak_vlang::VLangLanguage => |_c| oak_vlang::VLangParser::new(_c);
    voc oak_voc::VocLanguage => |_c| oak_voc::VocParser::new(_c);
    voml oak_voml::VomlLanguage => |_c| oak_voml::VomlParser::new(_c);
    wgsl oak_wgsl::WgslLanguage => |_c| oak_wgsl::WgslParser::new(_c);
    wit_component oak_wit::WitLanguage => |_c| oak_wit::WitParser::new(_c);
    toy crate::toy::Toy => |_c| crate::toy::Toy;
    zig oak_zig::ZigLanguage => |_c| oak_zig::ZigParser::new(_c);
}

/// A language for a case (LANGSIM_LANG fixes it, for experiments).
pub fn any(r: &mut simrt::Rng) -> String {
    let n = r.pick(NAMES).to_string();
    std::env::var("LANGSIM_LANG").unwrap_or(n)
}
