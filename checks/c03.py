"""Only well-formed programs are accepted: every token string up to a length,
and every single-token mutation of whole programs, against the reference
parser."""
from vlib import gen, judge, std

ID = "C03"


def check(ctx, src):
    return judge.front(ctx, src, proj="errors")


def families(tier):
    n = 4 if tier == "thorough" else 3
    f = [("token strings", lambda: gen.token_strings(gen.TOKENS_WIDE if tier == "thorough" else gen.TOKENS, n)),
         ("wide token strings", lambda: gen.token_strings(gen.TOKENS_WIDE, 3)),
         ("token strings without spaces", lambda: gen.token_strings(gen.TOKENS_WIDE, 2, "")),
         ("one-token mutations", lambda: gen.mutations(gen.PROGRAMS)),
         ("one-character edits", lambda: gen.char_edits(gen.SHORT)),
         ("layout characters", lambda: gen.char_edits(gen.PROGRAMS, gen.LAYOUT_CHARS)),
         ("literals", lambda: gen.char_strings("01_.-xbaE", 5 if tier == "quick" else 6)),
         ("names", lambda: gen.char_strings("aZ1_.-:é", 4 if tier == "quick" else 5, "%s 1\n")),
         ("quotes", lambda: gen.char_strings("'\"\\nx0a ", 5 if tier == "quick" else 6)),
         ("character strings", lambda: gen.char_strings("a1\"'\\#{}(), .:=-*&\n", 4 if tier == "quick" else 5, "%s"))]
    return f


def run(rep, tier):
    std.sweep(rep, families(tier), check)


def replay(item):
    return std.replay_with(check, item)
