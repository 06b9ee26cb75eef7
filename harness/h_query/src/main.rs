mod deltas;
mod positions;
mod revisions;
mod tokens;
use deltas::*;
use positions::*;
use revisions::*;
use tokens::*;
vsym::entries!(
    vs_q_offsets,
    vs_q_offsets_more,
    vs_q_positions,
    vs_q_positions_more,
    vs_q_ranges,
    vs_q_places,
    vs_q_tokens,
    vs_q_tokens_flat,
    vs_q_tokens_deep,
    vs_q_tokens_more,
    vs_q_token_types,
    vs_q_token_hash,
    vs_q_token_names,
    vs_q_legend,
    vs_q_edits,
    vs_q_edits_more,
    vs_q_histories,
    vs_q_histories_files,
    vs_q_histories_more,
    vs_q_foreign,
    vs_q_revisions,
    vs_q_revisions_one,
    vs_q_revisions_more
);
