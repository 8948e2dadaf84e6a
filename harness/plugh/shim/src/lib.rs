//! swc_core as a plugin sees it, with the host's side of the plugin interface replaced by plain values.
pub use real::*;

pub mod plugin {
    pub use plug_attr::plugin_transform;
    pub mod errors {
        pub use real::common::errors::HANDLER;
    }
    pub mod metadata {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum TransformPluginMetadataContextKind {
            Filename,
            Env,
            Cwd,
        }
    }
    pub mod proxies {
        use super::metadata::TransformPluginMetadataContextKind;
        use real::common::comments::SingleThreadedComments;
        use real::common::errors::SourceMapper;
        use real::common::SpanSnippetError;
        use real::common::source_map::FileLinesResult;
        use real::common::sync::Lrc;
        use real::common::{BytePos, FileName, Loc, Mark, SourceMap, Span};

        pub type PluginCommentsProxy = SingleThreadedComments;

        #[derive(Clone)]
        pub struct PluginSourceMapProxy(pub Lrc<SourceMap>);

        impl SourceMapper for PluginSourceMapProxy {
            fn lookup_char_pos(&self, pos: BytePos) -> Loc {
                SourceMapper::lookup_char_pos(&*self.0, pos)
            }
            fn span_to_lines(&self, sp: Span) -> FileLinesResult {
                SourceMapper::span_to_lines(&*self.0, sp)
            }
            fn span_to_string(&self, sp: Span) -> String {
                SourceMapper::span_to_string(&*self.0, sp)
            }
            fn span_to_filename(&self, sp: Span) -> Lrc<FileName> {
                SourceMapper::span_to_filename(&*self.0, sp)
            }
            fn merge_spans(&self, a: Span, b: Span) -> Option<Span> {
                SourceMapper::merge_spans(&*self.0, a, b)
            }
            fn call_span_if_macro(&self, sp: Span) -> Span {
                SourceMapper::call_span_if_macro(&*self.0, sp)
            }
            fn doctest_offset_line(&self, line: usize) -> usize {
                SourceMapper::doctest_offset_line(&*self.0, line)
            }
            fn span_to_snippet(&self, sp: Span) -> Result<String, Box<SpanSnippetError>> {
                SourceMapper::span_to_snippet(&*self.0, sp)
            }
        }

        pub struct TransformPluginProgramMetadata {
            pub comments: Option<PluginCommentsProxy>,
            pub source_map: PluginSourceMapProxy,
            pub unresolved_mark: Mark,
            pub filename: Option<String>,
            pub config: Option<String>,
        }

        impl TransformPluginProgramMetadata {
            pub fn get_transform_plugin_config(&self) -> Option<String> {
                self.config.clone()
            }
            pub fn get_context(&self, key: &TransformPluginMetadataContextKind) -> Option<String> {
                match key {
                    TransformPluginMetadataContextKind::Filename => self.filename.clone(),
                    TransformPluginMetadataContextKind::Env => Some("development".into()),
                    TransformPluginMetadataContextKind::Cwd => Some("/".into()),
                }
            }
            pub fn get_experimental_context(&self, _: &str) -> Option<String> {
                None
            }
        }
    }
}
