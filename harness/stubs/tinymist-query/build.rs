fn main() {
    extract::write(
        "global.rs",
        "/repo/crates/tinymist-query/src/analysis/global.rs",
        &[
            "AnalysisRevLock",
            "AnalysisRevCache",
            "LocalContextGuard",
            "LocalContext",
            "AnalysisGlobalCaches",
            "AnalysisRevSlot",
            "CacheMap",
            "IncrCacheMap",
            "IncrCacheMap::compute",
            "IncrCacheMap::crawl",
            "Analysis::lock_revision",
            "Analysis::clear_cache",
            "Analysis::enter_",
            "LocalContext::cached_tokens",
            "LocalContext::expr_stage",
            "CacheMap::entry",
            "find_loc",
            "loc_info",
        ],
        &[
            "Analysis",
            "SharedContext",
            "AnalysisLocalCaches",
            "LspQuerySnapshot",
            "LocalContext::source_by_path",
            "AnalysisStats",
        ],
    );
    extract::write("config.rs", "/repo/crates/tinymist/src/config.rs", &["get_semantic_tokens_options"], &[]);
}
