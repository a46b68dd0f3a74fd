From f8447050d91a8ca0859c3f6767ecdba1ccb845d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:41 +0000
Subject: [PATCH 01/56] fix: group expressions by operator precedence and
 parentheses

Only one rotation was done per operator and parenthesized operands were
taken apart again, so "(1 + 2) * 3" was compiled as "1 + 2 * 3" and
"1 is 1 + 2 * 3" as "(1 is 1 + 2) * 3".
---
 skull/parse/ast_node.c | 116 ++++++++++++++++++++++-------------------
 1 file changed, 62 insertions(+), 54 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index ad4c617..2a00100 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -33,8 +33,8 @@ static AstNodeExpr *parse_paren_expr(ParserCtx *);
 static void parse_ast_sub_tree_(ParserCtx *);
 static bool parse_ast_node(ParserCtx *);
 static void next_token(ParserCtx *);
-static AstNodeExpr *parse_single_expr(ParserCtx *);
-static AstNodeExpr *parse_expr_rhs(ParserCtx *, AstNodeExpr *);
+static AstNodeExpr *parse_single_expr(ParserCtx *, unsigned);
+static AstNodeExpr *parse_expr_rhs(ParserCtx *, AstNodeExpr *, unsigned);
 static unsigned oper_to_precedence(ExprType);
 static AstNodeExpr *parse_root_expr(ParserCtx *);
 static bool is_unary_oper(ExprType);
@@ -50,6 +50,8 @@ typedef enum {
 	RESULT_ERROR
 } ParserResult;
 
+enum { LOWEST_PRECEDENCE = 7 };
+
 #define NOT_NULL(x) (x) && (x)
 
 #define AST_TOKEN_CMP2(tok, type1, type2) \
@@ -661,38 +663,13 @@ Returns node if one was added, NULL otherwise.
 static AstNodeExpr *parse_expression(ParserCtx *ctx) {
 	if (!ctx->token) return NULL;
 
-	AstNodeExpr *head = parse_single_expr(ctx);
+	AstNodeExpr *head = parse_single_expr(ctx, LOWEST_PRECEDENCE);
 	if (ctx->err) return NULL;
 
-	AstNodeExpr *current = head;
-	AstNodeExpr *last = NULL;
-
-	while (last != current) {
-		last = current;
-
-		current = parse_expr_rhs(ctx, current);
-		if (ctx->err) {
-			free_expr_node(head);
-			return NULL;
-		}
-
-		const unsigned last_precedence = oper_to_precedence(last->oper);
-		const unsigned current_precedence = oper_to_precedence(current->oper);
-
-		if (last_precedence > current_precedence) {
-			current->lhs.expr = last->rhs;
-			last->rhs = current;
-
-			AstNodeExpr *tmp = last;
-			last = current;
-			current = tmp;
-		}
-	}
-
-	return last ? last : current;
+	return parse_expr_rhs(ctx, head, LOWEST_PRECEDENCE);
 }
 
-static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
+static AstNodeExpr *parse_single_expr(ParserCtx *ctx, unsigned precedence) {
 	if (!ctx->token) return NULL;
 
 	ExprType unary_oper = get_potential_unary_oper(ctx->token->type);
@@ -717,10 +694,16 @@ static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
 		return NULL;
 	}
 
+	const unsigned pow_precedence = oper_to_precedence(EXPR_POW);
+
 	AstNodeExpr *expr = Malloc(sizeof(AstNodeExpr));
 	*expr = (AstNodeExpr){
 		.oper = unary_oper,
-		.rhs = parse_root_expr(ctx)
+		.rhs = parse_expr_rhs(
+			ctx,
+			parse_root_expr(ctx),
+			precedence < pow_precedence ? precedence : pow_precedence
+		)
 	};
 
 	return expr;
@@ -765,37 +748,62 @@ static AstNodeExpr *parse_root_expr(ParserCtx *ctx) {
 	return NULL;
 }
 
-static AstNodeExpr *parse_expr_rhs(ParserCtx *ctx, AstNodeExpr *expr) {
-	if (!ctx->token) return expr;
+/*
+Parse the binary operators following `expr`, stopping at the first operator
+which binds looser than `precedence`. Operators with the same precedence are
+grouped from left to right.
 
-	const ExprType oper = token_type_to_binary_expr_type(ctx->token->type);
+This function takes ownership of `expr`. Returns `NULL` if an error occurs.
+*/
+static AstNodeExpr *parse_expr_rhs(
+	ParserCtx *ctx,
+	AstNodeExpr *expr,
+	unsigned precedence
+) {
+	while (expr && ctx->token && !ctx->err) {
+		const ExprType oper = token_type_to_binary_expr_type(ctx->token->type);
 
-	if (oper == EXPR_UNKNOWN) return expr;
-	if (is_unary_oper(oper)) {
-		FMT_ERROR(ERR_UNEXPECTED_UNARY_EXPR, { .loc = &ctx->token->location });
-		ctx->err = true;
-		return NULL;
-	}
+		if (oper == EXPR_UNKNOWN) return expr;
+		if (is_unary_oper(oper)) {
+			FMT_ERROR(ERR_UNEXPECTED_UNARY_EXPR, {
+				.loc = &ctx->token->location
+			});
+			ctx->err = true;
+			break;
+		}
 
-	Token *oper_token = ctx->token;
-	next_token(ctx);
+		const unsigned oper_precedence = oper_to_precedence(oper);
+		if (oper_precedence > precedence) return expr;
 
-	AstNodeExpr *rhs = parse_single_expr(ctx);
-	if (!rhs) {
-		FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = oper_token });
+		Token *oper_token = ctx->token;
+		next_token(ctx);
 
-		ctx->err = true;
-		return expr;
+		AstNodeExpr *rhs = parse_single_expr(ctx, oper_precedence - 1);
+		if (!rhs) {
+			FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = oper_token });
+
+			ctx->err = true;
+			break;
+		}
+
+		rhs = parse_expr_rhs(ctx, rhs, oper_precedence - 1);
+		if (!rhs) break;
+
+		AstNodeExpr *new_expr = Malloc(sizeof(AstNodeExpr));
+		*new_expr = (AstNodeExpr){
+			.lhs = { .expr = expr },
+			.oper = oper,
+			.rhs = rhs
+		};
+		expr = new_expr;
 	}
 
-	AstNodeExpr *new_expr = Malloc(sizeof(AstNodeExpr));
-	*new_expr = (AstNodeExpr){
-		.lhs = { .expr = expr },
-		.oper = oper,
-		.rhs = rhs
-	};
+	if (ctx->err) {
+		free_expr_node(expr);
+		return NULL;
+	}
 
-	return new_expr;
+	return expr;
 }
 
 static unsigned oper_to_precedence(ExprType oper) {
-- 
2.43.0


From 79263bbc094716ad30a6cc03863711e578bbfbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:33 +0000
Subject: [PATCH 02/56] fix: report incomplete statements and operands at the
 end of a file

"x :=", "x =", "export", "external", and a unary operator without an
operand dereferenced a null token or expression; a file ending in "if",
"elif" or "while" was rejected without any diagnostic.
---
 skull/parse/ast_node.c | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 2a00100..7eff31d 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -140,7 +140,9 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 	if (ctx->err) return RESULT_ERROR;
 
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = ctx->token ? &ctx->token->location : &first->location
+		});
 		return RESULT_ERROR;
 	}
 
@@ -217,7 +219,9 @@ static ParserResult parse_var_assign(ParserCtx *ctx) {
 
 	AstNodeExpr *expr = parse_expression(ctx);
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = ctx->token ? &ctx->token->location : &last->location
+		});
 
 		return RESULT_ERROR;
 	}
@@ -274,7 +278,7 @@ static ParserResult parse_function_proto(ParserCtx *ctx) {
 
 	if (is_external || is_export) next_token(ctx);
 
-	if (!AST_TOKEN_CMP2(ctx->token,
+	if (!ctx->token || !AST_TOKEN_CMP2(ctx->token,
 		TOKEN_IDENTIFIER,
 		TOKEN_PAREN_OPEN)
 	) {
@@ -412,7 +416,10 @@ static Vector *parse_function_proto_params(ParserCtx *ctx) {
 }
 
 static void parse_condition(ParserCtx *ctx, NodeType node_type) {
-	if (!ctx->token || !ctx->token->next) {
+	Token *keyword_tok = ctx->token;
+
+	if (!ctx->token->next) {
+		FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = keyword_tok });
 		ctx->err = true;
 		return;
 	}
@@ -423,7 +430,9 @@ static void parse_condition(ParserCtx *ctx, NodeType node_type) {
 	AstNodeExpr *expr = parse_expression(ctx);
 
 	if (!expr || ctx->err) {
-		FMT_ERROR(ERR_INVALID_EXPR, { .tok = ctx->token });
+		FMT_ERROR(ERR_INVALID_EXPR, {
+			.tok = ctx->token ? ctx->token : keyword_tok
+		});
 		ctx->err = true;
 
 		return;
@@ -696,14 +705,23 @@ static AstNodeExpr *parse_single_expr(ParserCtx *ctx, unsigned precedence) {
 
 	const unsigned pow_precedence = oper_to_precedence(EXPR_POW);
 
+	AstNodeExpr *rhs = parse_expr_rhs(
+		ctx,
+		parse_root_expr(ctx),
+		precedence < pow_precedence ? precedence : pow_precedence
+	);
+
+	if (!rhs) {
+		if (!ctx->err) FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = last });
+
+		ctx->err = true;
+		return NULL;
+	}
+
 	AstNodeExpr *expr = Malloc(sizeof(AstNodeExpr));
 	*expr = (AstNodeExpr){
 		.oper = unary_oper,
-		.rhs = parse_expr_rhs(
-			ctx,
-			parse_root_expr(ctx),
-			precedence < pow_precedence ? precedence : pow_precedence
-		)
+		.rhs = rhs
 	};
 
 	return expr;
-- 
2.43.0


From 036dd07bb267bc3f8ade231c3cd9f937c7ef00f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:19 +0000
Subject: [PATCH 03/56] fix: require "=" after an explicit variable type

"x: Int 4 5" skipped the token after the type, whatever it was, and was
compiled as "x: Int = 5".
---
 skull/parse/ast_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 7eff31d..757b46b 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -117,7 +117,7 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 	if (is_explicit_type(ctx)) {
 		is_implicit = false;
 
-		if (!ctx->token) {
+		if (!ctx->token || ctx->token->type != TOKEN_OPER_EQUAL) {
 			FMT_ERROR(ERR_MISSING_ASSIGNMENT, { .loc = &name_token->location });
 			return RESULT_ERROR;
 		}
-- 
2.43.0


From 9b04cc2eb2a4b6a990fa668f576aad5ecdf1636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:24 +0000
Subject: [PATCH 04/56] fix: diagnose malformed and duplicate namespaces

A namespace was accepted with any token as its name and without a block,
and a file ending in "namespace" or declaring a namespace twice was
rejected without any diagnostic.
---
 skull/parse/ast_node.c  | 8 +++++++-
 skull/semantic/flow.c   | 2 ++
 skull/semantic/symbol.c | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 757b46b..2028e1f 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -459,7 +459,13 @@ static void parse_while(ParserCtx *ctx) {
 }
 
 static void parse_namespace(ParserCtx *ctx) {
-	if (!ctx->token || !ctx->token->next) {
+	const Token *name_tok = ctx->token->next;
+
+	if (!name_tok || name_tok->type != TOKEN_IDENTIFIER) {
+		FMT_ERROR(ERR_UNEXPECTED_TOKEN, {
+			.tok = name_tok ? name_tok : ctx->token
+		});
+
 		ctx->err = true;
 		return;
 	}
diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index 9c9220a..f9f92a7 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -155,6 +155,8 @@ bool validate_control_continue(SemanticState *state, const AstNode *node) {
 }
 
 bool validate_control_namespace(SemanticState *state, AstNode *node) {
+	if (is_missing_block(node, "namespace")) return false;
+
 	Symbol *symbol = Calloc(1, sizeof(Symbol));
 	*symbol = (Symbol){
 		.name = token_to_mbs_str(node->token->next),
diff --git a/skull/semantic/symbol.c b/skull/semantic/symbol.c
index b6c1a80..c23f3e7 100644
--- a/skull/semantic/symbol.c
+++ b/skull/semantic/symbol.c
@@ -20,7 +20,7 @@ static bool symbol_already_exists(SemanticState *state, Symbol *new_symbol) {
 	const Location *location = &new_symbol->location;
 	char *name = new_symbol->name;
 
-	if (type != new_symbol->type) {
+	if (type != new_symbol->type || type == SYMBOL_NAMESPACE) {
 		FMT_ERROR(
 			ERR_NO_REDEFINE_X_AS_Y,
 			{ .loc = location, .str = symbol_type_to_str(type) },
-- 
2.43.0


From eec03a261619a544b3f200417f96d6af71586ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:29 +0000
Subject: [PATCH 05/56] fix: only variables can be used as variables

Functions and namespaces were read as if they were variables.
---
 skull/semantic/scope.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skull/semantic/scope.c b/skull/semantic/scope.c
index c0fb55f..387be27 100644
--- a/skull/semantic/scope.c
+++ b/skull/semantic/scope.c
@@ -89,6 +89,7 @@ Symbol *scope_find_var(SemanticState *state, const Token *const token) {
 	Symbol *const symbol = scope_find_name(state->scope, var_name);
 
 	if (!symbol ||
+		symbol->type != SYMBOL_VAR ||
 		!symbol->var ||
 		!symbol->var->is_defined
 	) {
-- 
2.43.0


From 75fed64526918d07cd1703b724efc1b0af170f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:07 +0000
Subject: [PATCH 06/56] fix: check returns against the enclosing function

After an external declaration, or after a function nested two levels
deep, later returns were checked against the wrong function, so a return
of an Int from main was rejected and a return of another type accepted.
---
 skull/semantic/func.c   | 5 ++---
 skull/semantic/shared.c | 1 -
 skull/semantic/shared.h | 1 -
 3 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 1a8f63d..567dd3c 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -27,6 +27,7 @@ static bool post_validate_stmt_func_decl(SemanticState *, const AstNode *);
 bool validate_stmt_func_decl(SemanticState *state, const AstNode *node) {
 	const unsigned while_loop_depth = state->while_loop_depth;
 	state->while_loop_depth = 0;
+	Symbol *const current_func = state->current_func;
 
 	const bool is_valid = (
 		validate_stmt_func_decl_(state, node) &&
@@ -35,6 +36,7 @@ bool validate_stmt_func_decl(SemanticState *state, const AstNode *node) {
 	);
 
 	state->while_loop_depth = while_loop_depth;
+	state->current_func = current_func;
 
 	return is_valid;
 }
@@ -79,7 +81,6 @@ static bool validate_stmt_func_decl_(
 		mangle_name(symbol->name) :
 		symbol->name;
 
-	state->last_func = state->current_func;
 	state->current_func = symbol;
 
 	if (!scope_add_symbol(state, symbol)) {
@@ -127,8 +128,6 @@ static bool post_validate_stmt_func_decl(
 		return false;
 	}
 
-	state->current_func = state->last_func;
-
 	return true;
 }
 
diff --git a/skull/semantic/shared.c b/skull/semantic/shared.c
index 4981c8f..5fbc9b1 100644
--- a/skull/semantic/shared.c
+++ b/skull/semantic/shared.c
@@ -28,7 +28,6 @@ SemanticState *setup_semantic_state(void) {
 
 	state->main_func = symbol;
 	state->current_func = state->main_func;
-	state->last_func = NULL;
 
 	return state;
 }
diff --git a/skull/semantic/shared.h b/skull/semantic/shared.h
index b51269a..07de7e4 100644
--- a/skull/semantic/shared.h
+++ b/skull/semantic/shared.h
@@ -13,7 +13,6 @@ typedef struct {
 	Scope *scope;
 	Symbol *main_func;
 	Symbol *current_func;
-	Symbol *last_func;
 	unsigned while_loop_depth;
 	HashTable *dynamic_refs;
 } SemanticState;
-- 
2.43.0


From 7c2631673063235f16366794dfc93cc24f17911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:11 +0000
Subject: [PATCH 07/56] fix: reject returning a value from a nested block of a
 void function

Only a return directly in the body was checked, the others made invalid
LLVM IR.
---
 skull/semantic/flow.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index f9f92a7..03035f6 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -1,5 +1,6 @@
 #include <stdbool.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "skull/build_data.h"
 #include "skull/common/errors.h"
@@ -55,7 +56,15 @@ static bool is_valid_return_expr(SemanticState *state, const AstNode *node) {
 
 	const Type *return_type = state->current_func->func->return_type;
 
-	if (return_type != &TYPE_VOID && expr->type != return_type) {
+	if (return_type == &TYPE_VOID) {
+		FMT_ERROR(ERR_NO_VOID_RETURN, {
+			.real = strdup(state->current_func->name)
+		});
+
+		return false;
+	}
+
+	if (expr->type != return_type) {
 		FMT_ERROR(ERR_EXPECTED_SAME_TYPE,
 			{ .loc = &expr_token->location, .type = return_type },
 			{ .type = expr->type }
-- 
2.43.0


From abcb6f171fcdd49838818b818a17a12450c3797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:16 +0000
Subject: [PATCH 08/56] fix: apply --werror to warnings in nested blocks

Warnings in a nested block were ignored, and made earlier warnings be
ignored too.
---
 skull/semantic/unused.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/unused.c b/skull/semantic/unused.c
index 4caa413..1d94f7b 100644
--- a/skull/semantic/unused.c
+++ b/skull/semantic/unused.c
@@ -47,7 +47,7 @@ bool check_unused_symbols(const AstNode *node) {
 		}
 
 		else if (head->child) {
-			err &= check_unused_symbols(head->child);
+			err |= !check_unused_symbols(head->child);
 		}
 
 		head = head->next;
-- 
2.43.0


From dc45a3e8f7d525bcdadc183db1fcf8804806bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:11 +0000
Subject: [PATCH 09/56] fix: do not suppress compilation errors with -q

-q is documented to suppress warnings only.
---
 skull/common/errors.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/skull/common/errors.c b/skull/common/errors.c
index 908f795..41f9f5f 100644
--- a/skull/common/errors.c
+++ b/skull/common/errors.c
@@ -16,6 +16,7 @@
 static char *fmt_message_internal(ErrorType, ErrorCode, Message []);
 static void message_stringify(Message *const);
 static void write_error_msg(char *);
+static bool is_warning(const char *);
 static char *get_location_str(const Message *);
 static char *get_error_msg(const Message[], size_t, ErrorCode);
 
@@ -260,6 +261,18 @@ void free_errors(void) {
 }
 
 static void write_error_msg(char *msg) {
-	if (!BUILD_DATA.quiet) fprintf(stderr, "%s", msg);
+	if (!BUILD_DATA.quiet || !is_warning(msg)) fprintf(stderr, "%s", msg);
 	free(msg);
 }
+
+static bool is_warning(const char *msg) {
+	char *prefix = uvsnprintf(
+		BUILD_DATA.color ? color_warning_msg : warning_msg,
+		BUILD_DATA.filename
+	);
+
+	const bool ret = strncmp(msg, prefix, strlen(prefix)) == 0;
+	free(prefix);
+
+	return ret;
+}
-- 
2.43.0


From d20a62cb09b33340623f1dd7fe3d0bae60f9449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:11 +0000
Subject: [PATCH 10/56] fix: count the characters of strings and runes in
 columns

Locations after a string or rune literal on the same line were off by the
length of the literal.
---
 skull/parse/token.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index 99416f1..89a537b 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -213,7 +213,7 @@ static bool iter_quote(TokenizeCtx *ctx) {
 	if (!ctx->token->begin) token_add_info(ctx);
 
 	do {
-		ctx->code++;
+		chomp(ctx);
 
 		if (*ctx->code == '\n') {
 			next_line(ctx);
-- 
2.43.0


From 7f2e03da2d31284ae98f3238fae7331af28123b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:11 +0000
Subject: [PATCH 11/56] fix: end a block comment at the first "#}"

A "#" right before the closing "#}" made the tokenizer miss it.
---
 skull/parse/token.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index 89a537b..a6df6be 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -152,13 +152,14 @@ static bool iter_comment(TokenizeCtx *ctx) {
 			break;
 		}
 		if (ctx->comment == BLOCK_COMMENT && *ctx->code == '#') {
-			chomp(ctx);
-
-			if (*ctx->code == '}') break;
+			if (ctx->code[1] == '}') {
+				chomp(ctx);
+				break;
+			}
 
-			if (*ctx->code == '\n') next_line(ctx);
+			if (ctx->code[1] == '{') {
+				chomp(ctx);
 
-			else if (*ctx->code == '{') {
 				Location location = (Location){
 					.line = ctx->line_num,
 					.column = ctx->column
-- 
2.43.0


From b81cb6684fbc37591d28dde8b0f4b0b0c7624dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:54 +0000
Subject: [PATCH 12/56] fix: break and continue after an inner loop

gen_control_while cleared the current loop once it was done, so a break or
continue following a nested loop branched to a NULL block and crashed the
compiler. Restore the enclosing loop instead.
---
 skull/codegen/llvm/flow.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index 0e3e352..a59d7e1 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -105,6 +105,9 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 		"while_end"
 	);
 
+	LLVMBasicBlockRef outer_while_cond = state->current_while_cond;
+	LLVMBasicBlockRef outer_while_end = state->current_while_end;
+
 	state->current_while_cond = while_cond;
 	state->current_while_end = while_end;
 
@@ -125,10 +128,9 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 	gen_control_code_block(node, while_cond, state);
 	LLVMPositionBuilderAtEnd(state->builder, while_end);
 
-	// shouldn't be needed since semantic layer checks that all break/continue
-	// statements are in a while loop, but it doesn't hurt to leave it in.
-	state->current_while_cond = NULL;
-	state->current_while_end = NULL;
+	// the enclosing loop (if any) is the current one again
+	state->current_while_cond = outer_while_cond;
+	state->current_while_end = outer_while_end;
 }
 
 /*
-- 
2.43.0


From cba76f0731d4df1f765d43e42db8bb6524b99fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:17 +0000
Subject: [PATCH 13/56] fix: integer division does not have to be exact

sdiv exact is poison when there is a remainder, so 7 / 2 was miscompiled.
---
 skull/codegen/llvm/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index cd1908c..12ba4bb 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -237,7 +237,7 @@ static Expr gen_expr_div(
 	const SkullStateLLVM *state
 ) {
 	return gen_expr_math_oper(
-		lhs, rhs, LLVMBuildExactSDiv, LLVMBuildFDiv, state
+		lhs, rhs, LLVMBuildSDiv, LLVMBuildFDiv, state
 	);
 }
 
-- 
2.43.0


From b2cbd4f2ef9041fbd46a3d000c39abdcccca1896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:23 +0000
Subject: [PATCH 14/56] fix: powers of zero and powers of floats

_int_pow returned the base for an exponent of zero, and _float_pow was a
variable which holds a function pointer but is called as a function, which
crashes the compiled program.
---
 skull/codegen/c/write.c |  4 +--
 skull/shim.ll           | 56 +++++++++++++++++++++--------------------
 2 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 9ebfc4a..c016da3 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -115,7 +115,7 @@ static const char *_float_pow = \
 
 static const char *_int_pow = \
 "int64_t _int_pow(int64_t base, int64_t exp) {\n"
-"	int64_t result = base;\n"
-"	for (int64_t i = 1; i < exp; i++) result *= base;\n"
+"	int64_t result = 1;\n"
+"	for (int64_t i = 0; i < exp; i++) result *= base;\n"
 "	return result;\n"
 "}\n";
diff --git a/skull/shim.ll b/skull/shim.ll
index 250f2a9..bed70da 100644
--- a/skull/shim.ll
+++ b/skull/shim.ll
@@ -1,4 +1,7 @@
-@_float_pow = dso_local global double (double, double)* @pow, align 8
+define dso_local double @_float_pow(double %0, double %1) {
+  %3 = call double @pow(double %0, double %1)
+  ret double %3
+}
 
 define dso_local zeroext i1 @_strcmp(i8* %0, i8* %1) {
   %3 = alloca i1, align 1
@@ -81,33 +84,32 @@ define dso_local i64 @_int_pow(i64 %0, i64 %1) {
   %6 = alloca i64, align 8
   store i64 %0, i64* %3, align 8
   store i64 %1, i64* %4, align 8
-  %7 = load i64, i64* %3, align 8
-  store i64 %7, i64* %5, align 8
-  store i64 1, i64* %6, align 8
-  br label %8
-
-8:
-  %9 = load i64, i64* %6, align 8
-  %10 = load i64, i64* %4, align 8
-  %11 = icmp slt i64 %9, %10
-  br i1 %11, label %12, label %19
-
-12:
-  %13 = load i64, i64* %3, align 8
-  %14 = load i64, i64* %5, align 8
-  %15 = mul nsw i64 %14, %13
-  store i64 %15, i64* %5, align 8
-  br label %16
+  store i64 1, i64* %5, align 8
+  store i64 0, i64* %6, align 8
+  br label %7
 
-16:
-  %17 = load i64, i64* %6, align 8
-  %18 = add nsw i64 %17, 1
-  store i64 %18, i64* %6, align 8
-  br label %8, !llvm.loop !3
-
-19:
-  %20 = load i64, i64* %5, align 8
-  ret i64 %20
+7:
+  %8 = load i64, i64* %6, align 8
+  %9 = load i64, i64* %4, align 8
+  %10 = icmp slt i64 %8, %9
+  br i1 %10, label %11, label %18
+
+11:
+  %12 = load i64, i64* %3, align 8
+  %13 = load i64, i64* %5, align 8
+  %14 = mul nsw i64 %13, %12
+  store i64 %14, i64* %5, align 8
+  br label %15
+
+15:
+  %16 = load i64, i64* %6, align 8
+  %17 = add nsw i64 %16, 1
+  store i64 %17, i64* %6, align 8
+  br label %7, !llvm.loop !3
+
+18:
+  %19 = load i64, i64* %5, align 8
+  ret i64 %19
 }
 
 !1 = distinct !{!1, !2}
-- 
2.43.0


From 0033f9e06b68e7a3f4d774ceca8d15d2a3de5c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:43 +0000
Subject: [PATCH 15/56] fix: name and type of exported and explicitly typed
 aliases

"export N := Int" declared an alias called "export", and "N: Int = Int" an
alias without a type, which crashed the compiler when it was used.
---
 skull/semantic/types.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index 79a3343..853af1d 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -262,21 +262,26 @@ static void strip_underscore_num(char *str, char c) {
 }
 
 bool validate_stmt_type_alias(SemanticState *state, const AstNode *node) {
-	const Token *token = node->token;
+	const Token *token = node->var_def->name_tok;
+	const Token *type_token = node->token_end->next;
 
 	if (!node->var_def->is_const) {
-		FMT_ERROR(ERR_NO_MUT_TYPE_ALIAS, { .loc = &token->next->location });
+		FMT_ERROR(ERR_NO_MUT_TYPE_ALIAS, {
+			.loc = &node->token->next->location
+		});
 		return false;
 	}
 
 	const ExprType oper = node->var_def->expr->oper;
 
-	if (oper != EXPR_IDENTIFIER && oper != EXPR_REF) {
-		FMT_ERROR(ERR_NO_TYPE_EXPR, { .loc = &token->next->next->location });
+	if (!node->var_def->is_implicit ||
+		(oper != EXPR_IDENTIFIER && oper != EXPR_REF)
+	) {
+		FMT_ERROR(ERR_NO_TYPE_EXPR, { .loc = &type_token->location });
 		return false;
 	}
 
-	const Type *type = token_to_type(state, token->next->next);
+	const Type *type = token_to_type(state, type_token);
 	char *alias = token_to_mbs_str(token);
 
 	Symbol *symbol;
-- 
2.43.0


From be33162f32f459945ce58e900976de265b78dad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:03 +0000
Subject: [PATCH 16/56] fix: reject comparing references and void values

There is no code generation for "is" and "isnt" with these types: the
compiler aborted with a failed assertion.
---
 skull/semantic/expr.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index d4f33e8..ff4ccb5 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -31,6 +31,7 @@ static bool validate_binary_expr(SemanticState *, AstNodeExpr *);
 static bool validate_expr_restrictions(AstNodeExpr *);
 static bool is_binary_expr(ExprType);
 static bool validate_deref_expr(const AstNodeExpr *);
+static bool validate_is_expr(const AstNodeExpr *);
 
 
 bool validate_expr(SemanticState *state, AstNodeExpr *expr) {
@@ -115,6 +116,9 @@ static bool validate_expr_restrictions(AstNodeExpr *expr) {
 			return validate_ref_expr(expr);
 		case EXPR_DEREF:
 			return validate_deref_expr(expr);
+		case EXPR_IS:
+		case EXPR_ISNT:
+			return validate_is_expr(expr);
 		default: break;
 	}
 
@@ -287,6 +291,18 @@ static bool validate_deref_expr(const AstNodeExpr *expr) {
 	return true;
 }
 
+static bool validate_is_expr(const AstNodeExpr *expr) {
+	const Type *type = expr->rhs->type;
+
+	if (type == &TYPE_VOID || is_reference(type)) {
+		FMT_ERROR(ERR_INVALID_EXPR, { .tok = find_expr_node_token(expr) });
+
+		return false;
+	}
+
+	return true;
+}
+
 bool validate_expr_func(SemanticState *state, const AstNode *node) {
 	if (node->expr->oper == EXPR_FUNC)
 		return validate_stmt_func_call(state, node->expr);
-- 
2.43.0


From 5299fe4f58af69d0efd0af68f647dd9d49f8fe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:08 +0000
Subject: [PATCH 17/56] fix: reject parameters and dereferenced values of type
 Void

They passed the semantic checks, and were only stopped by the LLVM verifier.
---
 skull/semantic/expr.c | 7 ++++++-
 skull/semantic/func.c | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index ff4ccb5..e8bca14 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -282,7 +282,12 @@ static bool validate_ref_expr(const AstNodeExpr *expr) {
 }
 
 static bool validate_deref_expr(const AstNodeExpr *expr) {
-	if (expr->rhs->oper != EXPR_IDENTIFIER || !is_reference(expr->rhs->type)) {
+	const Type *type = expr->rhs->type;
+
+	if (expr->rhs->oper != EXPR_IDENTIFIER ||
+		!is_reference(type) ||
+		type->inner == &TYPE_VOID
+	) {
 		FMT_ERROR(ERR_CANNOT_DEREF, { .loc = find_expr_node_location(expr) });
 
 		return false;
diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 567dd3c..8dcebbd 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -147,7 +147,9 @@ static bool validate_func_params(
 	for (unsigned i = 0; i < function->num_params; i++) {
 		function->param_types[i] = token_to_type(state, params[i]->type_name);
 
-		if (!function->param_types[i]) {
+		if (!function->param_types[i] ||
+			function->param_types[i] == &TYPE_VOID
+		) {
 			FMT_ERROR(ERR_TYPE_NOT_FOUND, { .tok = params[i]->type_name });
 
 			restore_parent_scope(state);
-- 
2.43.0


From f739a37608f0b9e5ed82384ac894e80b8558a5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:14 +0000
Subject: [PATCH 18/56] fix: only members of a namespace are found through its
 name

"ns.x" found the "x" of any scope around the namespace "ns" too.
---
 skull/semantic/scope.c | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/scope.c b/skull/semantic/scope.c
index 387be27..62c232e 100644
--- a/skull/semantic/scope.c
+++ b/skull/semantic/scope.c
@@ -14,6 +14,7 @@
 static void free_ht_symbol(HashItem *);
 static void free_symbol(Symbol *);
 static Scope *find_scope_head(SemanticState *);
+static Symbol *find_namespace_member(const Scope *, char *);
 
 /*
 Add `symbol` (as variable) to current scope.
@@ -52,7 +53,10 @@ Symbol *scope_find_name(const Scope *const scope, char *name) {
 			Symbol *symbol = NULL;
 
 			if (namespace && namespace->type == SYMBOL_NAMESPACE) {
-				symbol = scope_find_name(namespace->scope, dot_position + 1);
+				symbol = find_namespace_member(
+					namespace->scope,
+					dot_position + 1
+				);
 			}
 
 			*dot_position = '.';
@@ -70,6 +74,34 @@ Symbol *scope_find_name(const Scope *const scope, char *name) {
 	return NULL;
 }
 
+/*
+Return symbol called `name` (which may be in a nested namespace) that is
+declared in the namespace with scope `scope`, or `NULL` if there is none.
+
+The scopes surrounding the namespace are not searched.
+*/
+static Symbol *find_namespace_member(const Scope *scope, char *name) {
+	char *dot_position = strchr(name, '.');
+	if (dot_position) *dot_position = '\0';
+
+	Symbol *symbol = NULL;
+
+	while (scope && !symbol) {
+		if (scope->symbols) symbol = ht_get(scope->symbols, name);
+		scope = scope->last;
+	}
+
+	if (dot_position) {
+		*dot_position = '.';
+
+		if (!symbol || symbol->type != SYMBOL_NAMESPACE) return NULL;
+
+		return find_namespace_member(symbol->scope, dot_position + 1);
+	}
+
+	return symbol;
+}
+
 /*
 Returns a new variable scope.
 */
-- 
2.43.0


From e44d16317422ff0eab84e183e0ec6ad4ae0fd955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:35 +0000
Subject: [PATCH 19/56] fix: return, break and continue in a namespace block

Code generation went on after the namespace as if control could still reach
it, which put a terminator in the middle of a block. Code below it is
unreachable.
---
 skull/codegen/llvm/core.c |  2 +-
 skull/codegen/llvm/flow.c | 12 ++++++++----
 skull/codegen/llvm/flow.h |  2 +-
 skull/semantic/flow.c     | 31 +++++++++++++++++++++++++++++--
 4 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/skull/codegen/llvm/core.c b/skull/codegen/llvm/core.c
index 5c92e05..b914d5a 100644
--- a/skull/codegen/llvm/core.c
+++ b/skull/codegen/llvm/core.c
@@ -53,7 +53,7 @@ static Expr gen_node(const AstNode **node, SkullStateLLVM *state) {
 			gen_stmt_noop(&(*node)->token->location, state); break;
 		case AST_NODE_BREAK: return gen_stmt_break(state);
 		case AST_NODE_CONTINUE: return gen_stmt_continue(state);
-		case AST_NODE_NAMESPACE: gen_control_namespace(*node, state); break;
+		case AST_NODE_NAMESPACE: return gen_control_namespace(*node, state);
 		case AST_NODE_IMPORT:
 		case AST_NODE_COMMENT:
 			break;
diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index a59d7e1..dd6bc31 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -22,7 +22,7 @@ static void gen_control_if_(
 	SkullStateLLVM *
 );
 
-static void gen_control_code_block(
+static Expr gen_control_code_block(
 	const AstNode *,
 	LLVMBasicBlockRef,
 	SkullStateLLVM *
@@ -152,8 +152,8 @@ void gen_control_if(const AstNode **node, SkullStateLLVM *state) {
 /*
 Builds a namespace from `node`.
 */
-void gen_control_namespace(const AstNode *node, SkullStateLLVM *state) {
-	gen_control_code_block(node, NULL, state);
+Expr gen_control_namespace(const AstNode *node, SkullStateLLVM *state) {
+	return gen_control_code_block(node, NULL, state);
 }
 
 /*
@@ -262,8 +262,10 @@ Expr gen_stmt_continue(const SkullStateLLVM *state) {
 /*
 Parse `node` while in a new scope. Branch to `block` if no return occurred (and
 is not `NULL`).
+
+Return the expr which was returned, if there was one.
 */
-static void gen_control_code_block(
+static Expr gen_control_code_block(
 	const AstNode *node,
 	LLVMBasicBlockRef block,
 	SkullStateLLVM *state
@@ -285,4 +287,6 @@ static void gen_control_code_block(
 	}
 
 	if (!returned.value && block) LLVMBuildBr(state->builder, block);
+
+	return returned;
 }
diff --git a/skull/codegen/llvm/flow.h b/skull/codegen/llvm/flow.h
index 134b8ff..b05889a 100644
--- a/skull/codegen/llvm/flow.h
+++ b/skull/codegen/llvm/flow.h
@@ -14,4 +14,4 @@ void gen_stmt_implicit_main_return(const Location *, const SkullStateLLVM *);
 void gen_stmt_noop(const Location *, const SkullStateLLVM *);
 void gen_control_while(const AstNode *, SkullStateLLVM *);
 void gen_control_if(const AstNode **, SkullStateLLVM *);
-void gen_control_namespace(const AstNode *, SkullStateLLVM *);
+Expr gen_control_namespace(const AstNode *, SkullStateLLVM *);
diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index 03035f6..e1f311e 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -19,6 +19,7 @@ static bool validate_control_not_missing_if(const AstNode *);
 static bool is_missing_block(const AstNode *, const char *);
 static bool validate_bool_expr(const AstNodeExpr *);
 static bool no_dead_code_below(const AstNode *);
+static bool ends_control_flow(const AstNode *);
 static bool is_valid_return_expr(SemanticState *, const AstNode *);
 
 bool validate_stmt_return(SemanticState *state, const AstNode *node) {
@@ -182,9 +183,35 @@ bool validate_control_namespace(SemanticState *state, AstNode *node) {
 
 	const bool ok = setup_and_validate_ast_sub_tree(state, node->child);
 
-	if (ok) symbol->scope = get_last_adjacent_scope(state->scope->last->child);
+	if (!ok) return false;
 
-	return ok;
+	symbol->scope = get_last_adjacent_scope(state->scope->last->child);
+
+	return !ends_control_flow(node->child) || no_dead_code_below(node->next);
+}
+
+/*
+Return `true` if control never leaves the code starting at `node` through its
+end. A namespace does not branch, so it is part of the code around it.
+*/
+static bool ends_control_flow(const AstNode *node) {
+	while (node) {
+		switch (node->type) {
+			case AST_NODE_RETURN:
+			case AST_NODE_UNREACHABLE:
+			case AST_NODE_BREAK:
+			case AST_NODE_CONTINUE:
+				return true;
+			case AST_NODE_NAMESPACE:
+				if (ends_control_flow(node->child)) return true;
+				break;
+			default: break;
+		}
+
+		node = node->next;
+	}
+
+	return false;
 }
 
 static bool is_missing_block(const AstNode *node, const char *name) {
-- 
2.43.0


From 6449d4f8249af85cb9bc8c53d5ebdf1c1f7a2a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:56 +0000
Subject: [PATCH 20/56] fix: references to and dereferences of constants in
 functions

Parameters and constants of functions have no address, only a value: taking
a reference to one gave its value, and dereferencing one loaded twice.
---
 skull/codegen/llvm/expr.c | 40 +++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 12ba4bb..3e5bd05 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -33,7 +33,7 @@ static Operation gen_expr_add, gen_expr_sub, gen_expr_mult,
 static Expr gen_expr_const(const AstNodeExpr *, const SkullStateLLVM *);
 static Expr gen_expr_is_str(LLVMValueRef, LLVMValueRef, const SkullStateLLVM *);
 static Expr gen_expr_identifier(const AstNodeExpr *, const SkullStateLLVM *);
-static Expr gen_expr_ref(const AstNodeExpr *);
+static Expr gen_expr_ref(const AstNodeExpr *, const SkullStateLLVM *);
 static Expr gen_expr_deref(const AstNodeExpr *, const SkullStateLLVM *);
 static Operation *expr_type_to_func(ExprType);
 
@@ -58,7 +58,7 @@ Expr gen_expr(const AstNodeExpr *const expr, const SkullStateLLVM *state) {
 		case EXPR_FUNC:
 			return gen_expr_func_call(expr->lhs.func_call, state);
 		case EXPR_REF:
-			return gen_expr_ref(expr);
+			return gen_expr_ref(expr, state);
 		case EXPR_DEREF:
 			return gen_expr_deref(expr, state);
 		default: break;
@@ -109,21 +109,16 @@ static Expr gen_expr_deref(
 	const AstNodeExpr *expr,
 	const SkullStateLLVM *state
 ) {
-	const Variable *var = expr->rhs->symbol->var;
+	const Expr ref = gen_expr_identifier(expr->rhs, state);
 
 	return (Expr) {
 		.value = LLVMBuildLoad2(
 			state->builder,
-			type_to_llvm_type(var->type->inner, state),
-			LLVMBuildLoad2(
-				state->builder,
-				type_to_llvm_type(var->type, state),
-				var->ref,
-				""
-			),
+			type_to_llvm_type(ref.type->inner, state),
+			ref.value,
 			""
 		),
-		.type = var->type->inner
+		.type = ref.type->inner
 	};
 }
 
@@ -323,10 +318,27 @@ static Expr gen_expr_pow(
 /*
 Return reference to an expression `expr`.
 */
-static Expr gen_expr_ref(const AstNodeExpr *expr) {
+static Expr gen_expr_ref(
+	const AstNodeExpr *expr,
+	const SkullStateLLVM *state
+) {
+	const Variable *var = expr->rhs->symbol->var;
+
+	LLVMValueRef address = var->ref;
+
+	// constants inside functions only have a value, put it somewhere
+	if (!var->is_global && var->is_const) {
+		address = LLVMBuildAlloca(
+			state->builder,
+			type_to_llvm_type(var->type, state),
+			""
+		);
+		LLVMBuildStore(state->builder, var->ref, address);
+	}
+
 	return (Expr){
-		.value = expr->rhs->symbol->var->ref,
-		.type = expr->rhs->symbol->var->type->inner
+		.value = address,
+		.type = expr->type
 	};
 }
 
-- 
2.43.0


From 16b4da67666d55f179581f6308be6019ce2a225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:20 +0000
Subject: [PATCH 21/56] fix: initialize mutable variables in every iteration of
 a loop

A mutable variable with a constant value which is defined in a loop outside
of any function was only initialized once, before the loop.
---
 skull/codegen/llvm/assign.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index 1e31009..befa19e 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -80,7 +80,10 @@ static void setup_var_llvm(
 				LLVMConstNull(type_to_llvm_type(var->type, state))
 		);
 
-		if (is_const_literal) return;
+		// a mutable variable in a loop is set again in every iteration
+		const bool is_reset = !var->is_const && state->current_while_cond;
+
+		if (is_const_literal && !is_reset) return;
 	}
 	else if (requires_alloca_decl(var)) {
 		var->ref = LLVMBuildAlloca(
-- 
2.43.0


From 06ca85b6e47e520b9e93a77c1f2567a4d0036308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:25 +0000
Subject: [PATCH 22/56] fix: do not pass code points to iscntrl

It is only defined for values of unsigned char (and EOF): for others it reads
outside of the table of the C library.
---
 skull/semantic/types.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index 853af1d..2b1e395 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -97,7 +97,8 @@ Return "rune" converted from `token`.
 char32_t eval_rune(const Token *const token, bool *err) {
 	const char32_t *start = token->begin + 1;
 
-	if (iscntrl((int)*start)) {
+	// only ASCII characters can be passed to iscntrl()
+	if (*start < 0x80 && iscntrl((int)*start)) {
 		FMT_ERROR(ERR_NO_CONTROL_CHAR, { .loc = &token->location });
 
 		*err = true;
-- 
2.43.0


From 7a06d3e422cef22ae16b03c046c09a5987ded321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:31 +0000
Subject: [PATCH 23/56] fix: keep the tokens next to a comment

A token directly followed by a comment, or directly following a block
comment, became part of the comment: the statement was silently ignored.
---
 skull/parse/token.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index a6df6be..b50df2c 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -33,6 +33,7 @@ static void token_add_info(TokenizeCtx *);
 static void chomp(TokenizeCtx *);
 static void next_line(TokenizeCtx *);
 static bool is_valid_comment_start(TokenizeCtx *);
+static void end_token(TokenizeCtx *, const char32_t *);
 static void parse_delimiter(TokenizeCtx *);
 
 /*
@@ -108,9 +109,7 @@ static bool tokenize_inner_loop(TokenizeCtx *ctx) {
 		if (!is_whitespace(*ctx->code)) token_add_info(ctx);
 	}
 	else if (!ctx->token->len && is_whitespace(*ctx->code)) {
-		ctx->token->len = (unsigned)(ctx->code - ctx->token->begin);
-		ctx->last = ctx->token;
-		ctx->token = setup_next(ctx->token);
+		end_token(ctx, ctx->code);
 	}
 
 	if (*ctx->code == '\n') next_line(ctx);
@@ -141,7 +140,10 @@ Return `true` if errors occurred.
 static bool iter_comment(TokenizeCtx *ctx) {
 	if (!is_valid_comment_start(ctx)) return true;
 
-	if (!ctx->token->begin) token_add_info(ctx);
+	// a comment can directly follow another token
+	if (ctx->token->begin) end_token(ctx, ctx->code);
+
+	token_add_info(ctx);
 	chomp(ctx);
 
 	do {
@@ -178,9 +180,22 @@ static bool iter_comment(TokenizeCtx *ctx) {
 	}
 
 	ctx->token->type = TOKEN_COMMENT;
+
+	// and another token can directly follow a block comment
+	if (ctx->comment == BLOCK_COMMENT) end_token(ctx, ctx->code + 1);
+
 	return false;
 }
 
+/*
+End the current token at `end`, and start the next one.
+*/
+static void end_token(TokenizeCtx *ctx, const char32_t *end) {
+	ctx->token->len = (unsigned)(end - ctx->token->begin);
+	ctx->last = ctx->token;
+	ctx->token = setup_next(ctx->token);
+}
+
 static bool is_valid_comment_start(TokenizeCtx *ctx) {
 	ctx->comment = NO_COMMENT;
 
-- 
2.43.0


From c746183d0be9c82d2273137ce7e8459b8188501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:56 +0000
Subject: [PATCH 24/56] fix: variables of functions are not globals in the C
 backend

They kept their value between calls, and were redefined when two functions
had a variable with the same name.
---
 skull/codegen/c/assign.c | 2 +-
 skull/codegen/c/func.c   | 4 ++++
 skull/codegen/c/shared.h | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index fa78c32..a280bd7 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -39,7 +39,7 @@ CStmt gen_stmt_var_def_c(const AstNode *node, SkullStateC *state) {
 
 	char *type = skull_type_to_c_type(var->type);
 
-	if (state->indent_lvl == 1) {
+	if (state->indent_lvl == 1 && !state->in_function) {
 		CStmt stmt = gen_stmt_global_var(node, type, state);
 
 		free(type);
diff --git a/skull/codegen/c/func.c b/skull/codegen/c/func.c
index 4d2bb27..071ffc2 100644
--- a/skull/codegen/c/func.c
+++ b/skull/codegen/c/func.c
@@ -1,3 +1,4 @@
+#include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -88,9 +89,12 @@ char *gen_function_prototype_c(const AstNode *node, SkullStateC *state) {
 	}
 	else {
 		unsigned indent_lvl = state->indent_lvl;
+		const bool in_function = state->in_function;
 		state->indent_lvl = 0;
+		state->in_function = true;
 		char *tree = gen_tree_c(node->child, state);
 		state->indent_lvl = indent_lvl;
+		state->in_function = in_function;
 
 		out = uvsnprintf(
 			func->is_export ?
diff --git a/skull/codegen/c/shared.h b/skull/codegen/c/shared.h
index e09d2ce..60c4382 100644
--- a/skull/codegen/c/shared.h
+++ b/skull/codegen/c/shared.h
@@ -8,6 +8,7 @@ typedef struct {
 	_Bool called_int_pow;
 	_Bool called_float_pow;
 	_Bool called_strcmp;
+	_Bool in_function;
 	unsigned indent_lvl;
 } SkullStateC;
 
-- 
2.43.0


From d81e8dcef456da897ac2f3c4229df87e0f40bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:01 +0000
Subject: [PATCH 25/56] fix: values of mutable variables and of calls are not
 constant

The C backend put them in initializers of globals, which C rejects (or, for
the variables, evaluated them before the variable got its value).
---
 skull/semantic/expr.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index e8bca14..95a092e 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -64,7 +64,9 @@ static bool validate_ident_expr(SemanticState *state, AstNodeExpr *expr) {
 
 	expr->symbol = symbol;
 	expr->type = var->type;
-	if (var->expr) expr->is_const_expr = var->expr->is_const_expr;
+	if (var->expr) {
+		expr->is_const_expr = var->is_const && var->expr->is_const_expr;
+	}
 
 	return true;
 }
@@ -147,7 +149,16 @@ static void set_expr_type(SemanticState *state, AstNodeExpr *expr) {
 }
 
 static void set_const_expr(AstNodeExpr *expr) {
-	if (is_binary_expr(expr->oper)) {
+	const bool is_str_compare = (
+		(expr->oper == EXPR_IS || expr->oper == EXPR_ISNT) &&
+		expr->rhs->type == &TYPE_STR
+	);
+
+	// these are calls to built-in functions
+	if (expr->oper == EXPR_POW || is_str_compare) {
+		expr->is_const_expr = false;
+	}
+	else if (is_binary_expr(expr->oper)) {
 		expr->is_const_expr = (
 			expr->lhs.expr->is_const_expr && expr->rhs->is_const_expr
 		);
-- 
2.43.0


From 2b29d8d42c2ddcea5af8cc6026b4ec0372581db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:27 +0000
Subject: [PATCH 26/56] fix: escape strings in the C backend

Quotes, backslashes and newlines in a string made invalid C code.
---
 skull/codegen/c/expr.c | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index d7532ac..24ca553 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -5,6 +5,7 @@
 #include <string.h>
 
 #include "skull/codegen/c/shared.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/symbol.h"
@@ -17,6 +18,7 @@ static CExpr gen_expr_const_c(const AstNodeExpr *);
 static CExpr gen_expr_binary_c(const AstNodeExpr *, SkullStateC *);
 static CExpr gen_expr_unary_c(const AstNodeExpr *, SkullStateC *);
 static CExpr gen_expr_func_call_c(const AstNodeFunctionCall *, SkullStateC *);
+static CExpr gen_str_c(const char *);
 
 CExpr gen_expr_c(const AstNodeExpr *expr, SkullStateC *state) {
 	switch (expr->oper) {
@@ -80,12 +82,45 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 		return uvsnprintf("0x%X", expr->value.rune);
 	}
 	if (expr->type == &TYPE_STR) {
-		return uvsnprintf("\"%s\"", expr->value.str);
+		return gen_str_c(expr->value.str);
 	}
 
 	assert(false);
 }
 
+/*
+Return `str` as a C string literal.
+*/
+static CExpr gen_str_c(const char *str) {
+	// every character needs at most 4 characters, plus quotes and terminator
+	char *out = Malloc((strlen(str) * 4) + 3);
+	char *at = out;
+
+	*at++ = '"';
+
+	while (*str) {
+		const unsigned char c = (unsigned char)*str++;
+
+		if (c == '"' || c == '\\') {
+			*at++ = '\\';
+			*at++ = (char)c;
+		}
+		else if (c < ' ') {
+			// always 3 digits, so that a digit can follow
+			*at++ = '\\';
+			*at++ = '0';
+			*at++ = (char)('0' + (c >> 3U));
+			*at++ = (char)('0' + (c & 7U));
+		}
+		else *at++ = (char)c;
+	}
+
+	*at++ = '"';
+	*at = '\0';
+
+	return out;
+}
+
 static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 	const char *fmt = NULL;
 
-- 
2.43.0


From 5498ca87de0734663f5e4b6e8ceb6f7234541c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:32 +0000
Subject: [PATCH 27/56] fix: NaN, Infinity and mod of floats in the C backend

They made invalid C code.
---
 skull/codegen/c/expr.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index 24ca553..2ab304b 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -1,5 +1,6 @@
 #include <assert.h>
 #include <limits.h>
+#include <math.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
@@ -70,6 +71,14 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 	}
 	if (expr->type == &TYPE_FLOAT) {
 		if (!expr->value._int) return strdup("0.0");
+		if (isnan(expr->value._float)) return strdup("__builtin_nan(\"\")");
+		if (isinf(expr->value._float)) {
+			return strdup(
+				expr->value._float < 0 ?
+					"-__builtin_inf()" :
+					"__builtin_inf()"
+			);
+		}
 
 		// here we are using the hex representation of the float to guarantee
 		// that there is no loss in percision when stringifying.
@@ -129,7 +138,11 @@ static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 		case EXPR_SUB: fmt = "(%s - %s)"; break;
 		case EXPR_MULT: fmt = "(%s * %s)"; break;
 		case EXPR_DIV: fmt = "(%s / %s)"; break;
-		case EXPR_MOD: fmt = "(%s %% %s)"; break;
+		case EXPR_MOD: {
+			if (expr->type == &TYPE_FLOAT) fmt = "__builtin_fmod(%s, %s)";
+			else fmt = "(%s %% %s)";
+			break;
+		}
 		case EXPR_LSHIFT: fmt = "(%s << %s)"; break;
 		case EXPR_RSHIFT: fmt = "(%s >> %s)"; break;
 		case EXPR_IS: {
-- 
2.43.0


From 4db9c91b98c3fe972cbf1061156b6688cb31ed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:38 +0000
Subject: [PATCH 28/56] fix: errors when writing the file of the C backend

The compiler crashed when the file could not be opened, and reported success
when it could not be written.
---
 skull/codegen/c/write.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index c016da3..52b9196 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -34,6 +34,8 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 
 	free(out_filename);
 
+	if (!f) return true;
+
 	print_headers(f);
 	print_builtins(f, state);
 	print_globals(f, state);
@@ -42,7 +44,13 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 	print_main_shim(f, module_name, state);
 	free(module_name);
 
-	return false;
+	if (f == stdout) return fflush(f) != 0 || ferror(f);
+
+	bool err = ferror(f);
+	if (fclose(f) != 0) err = true;
+	if (err) fprintf(stderr, "skull: error while writing C file\n");
+
+	return err;
 }
 
 static void print_headers(FILE *f) {
-- 
2.43.0


From ef5f6b5764e60201ca309a31ebfd3402bc993c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:35 +0000
Subject: [PATCH 29/56] fix: report files which cannot be read

A directory or a failing read was reported as an empty file, with exit status
0, and a file with a NUL byte was silently compiled up to that byte.
---
 skull/common/io.c | 12 ++++++++++--
 skull/real_main.c |  9 ++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/skull/common/io.c b/skull/common/io.c
index d1af053..eefd656 100644
--- a/skull/common/io.c
+++ b/skull/common/io.c
@@ -16,6 +16,9 @@
 
 /*
 Return string read from file descriptor `fd`.
+
+Return `NULL` if the file is empty, or if it could not be read, in which case
+`errno` is set.
 */
 char *file_to_string(FILE *fd) {
 	errno = 0;
@@ -32,14 +35,19 @@ char *file_to_string(FILE *fd) {
 	CHECK_ERRNO("fseek");
 
 	char *str = Malloc((size_t)len + 1);
+	errno = 0;
 	const size_t read = fread(str, 1, (size_t)len, fd);
 
-	if (!read) {
+	// the rest of the compiler would only see what comes before a NUL byte
+	if (read && memchr(str, '\0', read)) errno = EILSEQ;
+
+	if (!read || errno) {
 		free(str);
+		CHECK_ERRNO("fread");
 		return NULL;
 	}
 
-	str[len] = '\0';
+	str[read] = '\0';
 	return str;
 }
 
diff --git a/skull/real_main.c b/skull/real_main.c
index 0ff9345..0d00c9c 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdbool.h>
 #include <stdio.h>
 
@@ -52,7 +53,13 @@ static int compile_file(char *filename) {
 
 	char *file_contents = file_to_string(f);
 	if (!file_contents) {
-		bool err = false;
+		bool err = errno;
+
+		if (err) {
+			fclose(f);
+			return err;
+		}
+
 		FMT_WARN(err, WARN_FILE_EMPTY, {0});
 
 		fclose(f);
-- 
2.43.0


From 45f340fae806d427d39fe9049f9d1dcd00d3d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:29 +0000
Subject: [PATCH 30/56] fix: report when the linker does not run or is killed

The exit status of a process which was killed by a signal was taken for 0,
and the child went on as a second compiler if /bin/sh could not be executed.
---
 skull/codegen/llvm/write.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 3d5367f..075c40f 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -217,16 +217,14 @@ static int sh(char *argv[]) {
 	if (pid == 0) {
 		errno = 0;
 		execvp(argv[0], argv);
-		if (errno) {
-			perror("execvp");
-			return 1;
-		}
+		perror("execvp");
+		_exit(1);
 	}
 
 	int status = 0;
 	wait(&status);
 
-	return WEXITSTATUS(status);
+	return WIFEXITED(status) ? WEXITSTATUS(status) : 1;
 }
 
 static int shell(char *cmd) {
-- 
2.43.0


From 5d982f8d889781aede342177d1e28f979292382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:34 +0000
Subject: [PATCH 31/56] fix: filenames have to end in ".sk"

"a.sk.txt" was accepted as well, and compiling it replaced "a.sk" with the
executable.
---
 skull/cli.c       | 4 +++-
 skull/real_main.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index f39794f..3a0215d 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -42,7 +42,9 @@ int main(int argc, char *argv[]) {
 		return 1;
 	}
 
-	if (!strrstr(BUILD_DATA.filename, ".sk")) {
+	const char *extension = strrstr(BUILD_DATA.filename, ".sk");
+
+	if (!extension || extension[3]) {
 		fprintf(
 			stderr, "skull: missing required \".sk\" extension, exiting\n"
 		);
diff --git a/skull/real_main.c b/skull/real_main.c
index 0d00c9c..0f00f39 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -40,7 +40,9 @@ int real_main(int argc, char *argv[]) {
 Output compiled version of `filename` (file type depends on backend).
 */
 static int compile_file(char *filename) {
-	if (!strrstr(filename, ".sk")) {
+	const char *extension = strrstr(filename, ".sk");
+
+	if (!extension || extension[3]) {
 		DIE("missing required \".sk\" extension, exiting");
 	}
 
-- 
2.43.0


From 740800244c98b14297d9e38b29c624313ecf2491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:15 +0000
Subject: [PATCH 32/56] fix: file with only spaces crashes the compiler

---
 skull/pipeline.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/skull/pipeline.c b/skull/pipeline.c
index 8f1e2d4..415d4d1 100644
--- a/skull/pipeline.c
+++ b/skull/pipeline.c
@@ -35,6 +35,16 @@ int run_pipeline(const char *filename, char *file_contents) {
 		return true;
 	}
 
+	// there is nothing but whitespace in the file
+	if (!token->begin) {
+		free_tokens(token);
+		free(_file_contents);
+		free(file_contents);
+
+		FMT_ERROR(WARN_FILE_EMPTY, {0});
+		return true;
+	}
+
 	classify_tokens(token);
 
 	AstNode *node = parse_ast_tree(token);
-- 
2.43.0


From 2637d0749b74553f964974a9eee21e81d8398fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:44 +0000
Subject: [PATCH 33/56] fix: reject code blocks which do not belong to a
 statement

---
 skull/parse/ast_node.c | 16 +++++++++++++++-
 skull/semantic/flow.c  |  6 ++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 2028e1f..efa2c9a 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -13,6 +13,7 @@ typedef struct {
 	AstNode *node;
 	AstNode *head;
 	Token *token;
+	const Token *stray_block; // code block without a preceding statement
 	unsigned indent_lvl;
 	bool err;
 } ParserCtx;
@@ -503,6 +504,16 @@ static AstNode *parse_ast_tree_(ParserCtx *ctx) {
 		return NULL;
 	}
 
+	if (ctx->stray_block) {
+		FMT_ERROR(ERR_UNEXPECTED_CODE_BLOCK, {
+			.loc = &ctx->stray_block->location
+		});
+
+		free_ast_tree(ctx->head);
+		ctx->err = true;
+		return NULL;
+	}
+
 	if (ctx->node->last && ctx->head != ctx->node) {
 		ctx->node->last->next = NULL;
 		ctx->node->last = NULL;
@@ -628,7 +639,9 @@ static bool parse_ast_node(ParserCtx *ctx) {
 Start parsing a AST sub tree.
 */
 static void parse_ast_sub_tree_(ParserCtx *ctx) {
-	if (ctx->node->last && ctx->node->last->child) {
+	const AstNode *owner = ctx->node->last ? ctx->node->last : ctx->head;
+
+	if (owner->child) {
 		FMT_ERROR(ERR_UNEXPECTED_CODE_BLOCK, {
 			.loc = &(ctx->token)->location
 		});
@@ -661,6 +674,7 @@ static void parse_ast_sub_tree_(ParserCtx *ctx) {
 	if (!ctx->node->last) {
 		ctx->head->child = child;
 		child->parent = ctx->head;
+		ctx->stray_block = child->token;
 	}
 	else {
 		ctx->node->last->child = child;
diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index e1f311e..79ab6d6 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -285,9 +285,11 @@ bool assert_sane_child(const AstNode *node) {
 		node_type == AST_NODE_ELIF ||
 		node_type == AST_NODE_ELSE ||
 		node_type == AST_NODE_WHILE ||
-		node_type == AST_NODE_FUNCTION_PROTO ||
 		node_type == AST_NODE_NAMESPACE ||
-		(node_type == AST_NODE_EXPR && node->expr->oper == EXPR_FUNC)
+		(
+			node_type == AST_NODE_FUNCTION_PROTO &&
+			!node->func_proto->is_external
+		)
 	)) {
 		FMT_ERROR(ERR_UNEXPECTED_CODE_BLOCK, {
 			.loc = &node->child->token->location
-- 
2.43.0


From 4de812a6c77765bedc8bd19a99028fcaa6185306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:44 +0000
Subject: [PATCH 34/56] fix: negating a Float zero loses its sign

---
 skull/codegen/llvm/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 3e5bd05..862fd2e 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -371,7 +371,7 @@ static Expr gen_expr_unary_neg(
 			.type = lhs->type,
 			.value = lhs->type == &TYPE_INT ?
 				LLVM_INT(0) :
-				LLVM_FLOAT(0)
+				LLVM_FLOAT(-0.0)
 		},
 		rhs,
 		LLVMBuildNSWSub,
-- 
2.43.0


From f25350bf78c995e9915044ea1821e43d6e0a540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:01 +0000
Subject: [PATCH 35/56] fix: Bool arguments and return values follow the C ABI

---
 skull/codegen/llvm/func.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/skull/codegen/llvm/func.c b/skull/codegen/llvm/func.c
index 14b4702..5c6612d 100644
--- a/skull/codegen/llvm/func.c
+++ b/skull/codegen/llvm/func.c
@@ -25,6 +25,10 @@
 
 static void gen_function_def(const AstNode *const, Symbol *, SkullStateLLVM *);
 static void add_func(Symbol *, const SkullStateLLVM *);
+static void add_bool_attributes(
+	const FunctionDeclaration *,
+	const SkullStateLLVM *
+);
 static LLVMTypeRef *parse_func_param(
 	const FunctionDeclaration *,
 	const SkullStateLLVM *state
@@ -75,6 +79,32 @@ static void add_func(Symbol *symbol, const SkullStateLLVM *state) {
 			LLVMExternalLinkage :
 			LLVMPrivateLinkage
 	);
+
+	if (func->is_external || func->is_export) add_bool_attributes(func, state);
+}
+
+/*
+The C ABI requires that `bool`s are zero extended when passed/returned.
+*/
+static void add_bool_attributes(
+	const FunctionDeclaration *func,
+	const SkullStateLLVM *state
+) {
+	const char name[] = "zeroext";
+
+	LLVMAttributeRef zeroext = LLVMCreateEnumAttribute(
+		state->ctx,
+		LLVMGetEnumAttributeKindForName(name, sizeof name - 1),
+		0
+	);
+
+	if (func->return_type == &TYPE_BOOL)
+		LLVMAddAttributeAtIndex(func->ref, LLVMAttributeReturnIndex, zeroext);
+
+	for (unsigned i = 0; i < func->num_params; i++) {
+		if (func->param_types[i] == &TYPE_BOOL)
+			LLVMAddAttributeAtIndex(func->ref, i + 1, zeroext);
+	}
 }
 
 /*
-- 
2.43.0


From 9c05d38e36cbb21a66917c8fcadecaf163ae2d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:04 +0000
Subject: [PATCH 36/56] fix: stack space of variables in loops is allocated
 once per call

---
 skull/codegen/llvm/assign.c |  6 +-----
 skull/codegen/llvm/expr.c   |  6 +-----
 skull/codegen/llvm/flow.c   |  6 +-----
 skull/codegen/llvm/shared.c | 36 ++++++++++++++++++++++++++++++++++++
 skull/codegen/llvm/shared.h |  2 ++
 5 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index befa19e..de3f23b 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -86,11 +86,7 @@ static void setup_var_llvm(
 		if (is_const_literal && !is_reset) return;
 	}
 	else if (requires_alloca_decl(var)) {
-		var->ref = LLVMBuildAlloca(
-			state->builder,
-			type_to_llvm_type(var->type, state),
-			var->linkage_name
-		);
+		var->ref = build_alloca(var->type, var->linkage_name, state);
 	}
 
 	assign_value_to_var(value, symbol, state);
diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 862fd2e..653b81a 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -328,11 +328,7 @@ static Expr gen_expr_ref(
 
 	// constants inside functions only have a value, put it somewhere
 	if (!var->is_global && var->is_const) {
-		address = LLVMBuildAlloca(
-			state->builder,
-			type_to_llvm_type(var->type, state),
-			""
-		);
+		address = build_alloca(var->type, "", state);
 		LLVMBuildStore(state->builder, var->ref, address);
 	}
 
diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index dd6bc31..ff150e7 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -54,11 +54,7 @@ void gen_stmt_noop(const Location *location, const SkullStateLLVM *state) {
 	LLVMValueRef noop = LLVMBuildStore(
 		state->builder,
 		LLVM_INT(0),
-		LLVMBuildAlloca(
-			state->builder,
-			type_to_llvm_type(&TYPE_INT, state),
-			"noop"
-		)
+		build_alloca(&TYPE_INT, "noop", state)
 	);
 
 	add_llvm_debug_info(noop, location, state);
diff --git a/skull/codegen/llvm/shared.c b/skull/codegen/llvm/shared.c
index faacb7b..63d13b9 100644
--- a/skull/codegen/llvm/shared.c
+++ b/skull/codegen/llvm/shared.c
@@ -65,6 +65,42 @@ SkullStateLLVM *setup_llvm_state(SemanticState *semantic_state) {
 	return state;
 }
 
+/*
+Allocate space for a value of type `type` on the stack.
+
+Stack space is only given back when the function returns. Inside of loops it
+is allocated in the entry block, that is, once per call and not once per
+iteration.
+*/
+LLVMValueRef build_alloca(
+	const Type *type,
+	const char *name,
+	const SkullStateLLVM *state
+) {
+	LLVMTypeRef llvm_type = type_to_llvm_type(type, state);
+
+	if (!state->current_while_cond) {
+		return LLVMBuildAlloca(state->builder, llvm_type, name);
+	}
+
+	LLVMBasicBlockRef current_block = LLVMGetInsertBlock(state->builder);
+	LLVMMetadataRef location = LLVMGetCurrentDebugLocation2(state->builder);
+	LLVMBasicBlockRef entry = LLVMGetEntryBasicBlock(
+		state->current_func->func->ref
+	);
+
+	LLVMPositionBuilder(
+		state->builder,
+		entry,
+		LLVMGetFirstInstruction(entry)
+	);
+	LLVMValueRef alloca_ = LLVMBuildAlloca(state->builder, llvm_type, name);
+	LLVMPositionBuilderAtEnd(state->builder, current_block);
+	LLVMSetCurrentDebugLocation2(state->builder, location);
+
+	return alloca_;
+}
+
 /*
 Free everything about a Skull LLVM compiler instance.
 */
diff --git a/skull/codegen/llvm/shared.h b/skull/codegen/llvm/shared.h
index 761ecdb..5a9bee1 100644
--- a/skull/codegen/llvm/shared.h
+++ b/skull/codegen/llvm/shared.h
@@ -5,6 +5,7 @@
 
 typedef struct FunctionDeclaration FunctionDeclaration;
 typedef struct Symbol Symbol;
+typedef struct Type Type;
 
 typedef struct {
 	LLVMBuilderRef builder;
@@ -19,4 +20,5 @@ typedef struct {
 } SkullStateLLVM;
 
 SkullStateLLVM *setup_llvm_state(SemanticState *);
+LLVMValueRef build_alloca(const Type *, const char *, const SkullStateLLVM *);
 void free_llvm_state(SkullStateLLVM *);
-- 
2.43.0


From 7adb764f56051a8c4b57ab4d4bd98a87157cb18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:19 +0000
Subject: [PATCH 37/56] fix: file names and arguments after -- reach cc
 unchanged, whatever they contain

---
 skull/cli.c                | 30 ++++++++----------------------
 skull/codegen/llvm/write.c | 11 ++++++++---
 skull/common/str.c         | 24 ++++++++++++++++++++++++
 skull/common/str.h         |  1 +
 4 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index 3a0215d..51ee916 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -6,7 +6,6 @@
 #include <string.h>
 
 #include "skull/build_data.h"
-#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/real_main.h"
 #include "skull/version.h"
@@ -261,29 +260,16 @@ static bool parse_long_option(const char *arg) {
 }
 
 static char *squash_argv(char *argv[]) {
-	size_t len = 0;
-	char **argv_copy = argv;
-
-	while (*argv) {
-		len += strlen(*argv) + 1;
-		argv++;
-	}
-
-	argv = argv_copy;
-
-	char *out = Malloc(len);
-	size_t wrote = 0;
-
-	while (*argv) {
-		const size_t current_len = strlen(*argv) + 1;
-		memcpy(out + wrote, *argv, current_len);
-		wrote += current_len;
-		out[wrote - 1] = ' ';
-		argv++;
+	char *out = shell_quote(*argv);
+
+	while (*++argv) {
+		char *old = out;
+		char *quoted = shell_quote(*argv);
+		out = uvsnprintf("%s %s", old, quoted);
+		free(old);
+		free(quoted);
 	}
 
-	out[wrote - 1] = '\0';
-
 	return out;
 }
 
diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 075c40f..8fc2fd1 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -186,12 +186,17 @@ static PhaseResult emit_native_binary(void) {
 
 	if (err) return PHASE_ERR;
 
+	char *quoted_out_file = shell_quote(BUILD_DATA.out_file);
+	char *quoted_binary_name = shell_quote(binary_name);
+
 	char *shim = uvsnprintf(
-		"cc -nostartfiles \"%s\" -o \"%s\" %s -I/usr/include/skull -lm",
-		BUILD_DATA.out_file,
-		binary_name,
+		"cc -nostartfiles %s -o %s %s -I/usr/include/skull -lm",
+		quoted_out_file,
+		quoted_binary_name,
 		BUILD_DATA.extra_args ? BUILD_DATA.extra_args : (char[]){0}
 	);
+	free(quoted_out_file);
+	free(quoted_binary_name);
 	free(binary_name);
 
 	const bool exit_code = shell(shim);
diff --git a/skull/common/str.c b/skull/common/str.c
index 312618e..2027371 100644
--- a/skull/common/str.c
+++ b/skull/common/str.c
@@ -221,6 +221,30 @@ const char __attribute__((pure)) *strrstr(
 	return NULL;
 }
 
+/*
+Return `str` as a single word for the shell. Result must be freed.
+*/
+char *shell_quote(const char *str) {
+	// every char might need to be written as "'\''"
+	char *out = Malloc((strlen(str) * 4) + 3);
+	char *at = out;
+
+	*at++ = '\'';
+
+	for (; *str; str++) {
+		if (*str == '\'') {
+			memcpy(at, "'\\''", 4);
+			at += 4;
+		}
+		else *at++ = *str;
+	}
+
+	*at++ = '\'';
+	*at = '\0';
+
+	return out;
+}
+
 /*
 Return pointer to first occurrence of `c` in `str`, or `NULL` if none was
 found.
diff --git a/skull/common/str.h b/skull/common/str.h
index a7dcf71..f9e9359 100644
--- a/skull/common/str.h
+++ b/skull/common/str.h
@@ -24,3 +24,4 @@ _Bool c32isalnum(char32_t);
 char32_t c32sunescape(const char32_t **, const char32_t **);
 
 char *uvsnprintf(const char *const, ...);
+char *shell_quote(const char *);
-- 
2.43.0


From 2234b4a236893173805ee7f753f37f2fa1a74835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:39 +0000
Subject: [PATCH 38/56] fix: no object file is left behind when the executable
 cannot be created

---
 skull/codegen/llvm/write.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 8fc2fd1..667b7d8 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -184,7 +184,10 @@ static PhaseResult emit_native_binary(void) {
 	char *binary_name = get_binary_name();
 	bool err = check_directory(binary_name);
 
-	if (err) return PHASE_ERR;
+	if (err) {
+		remove(BUILD_DATA.out_file);
+		return PHASE_ERR;
+	}
 
 	char *quoted_out_file = shell_quote(BUILD_DATA.out_file);
 	char *quoted_binary_name = shell_quote(binary_name);
-- 
2.43.0


From 5e178277ace1c451f9552b8981a3a620981fef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:45 +0000
Subject: [PATCH 39/56] fix: a directory whose name starts with .sk may be part
 of the path

---
 skull/real_main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/real_main.c b/skull/real_main.c
index 0f00f39..fafbf41 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -46,7 +46,7 @@ static int compile_file(char *filename) {
 		DIE("missing required \".sk\" extension, exiting");
 	}
 
-	if (strrstr(filename, ".sk") == filename || strrstr(filename, "/.sk")) {
+	if (extension == filename || extension[-1] == '/') {
 		DIE("\".sk\" is not a valid name, exiting");
 	}
 
-- 
2.43.0


From 6070533084db45728b69961ca8a9cff6bd17702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:06 +0000
Subject: [PATCH 40/56] fix: unknown optimization levels and additional
 filenames are refused, not ignored

---
 skull/cli.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skull/cli.c b/skull/cli.c
index 51ee916..9f91c9a 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -68,6 +68,11 @@ static int handle_args(int argc, char *argv[]) {
 	if (argc == 0) return 0;
 
 	if (**argv != '-') {
+		if (BUILD_DATA.filename && *BUILD_DATA.filename) {
+			fprintf(stderr, "skull: expected a single filename\n");
+			bail(1);
+		}
+
 		BUILD_DATA.filename = argv[0];
 		return handle_args(--argc, ++argv);
 	}
@@ -106,7 +111,7 @@ static int handle_args(int argc, char *argv[]) {
 			break;
 		}
 		case 'O': {
-			switch (argv[0][2]) {
+			switch (argv[0][2] && argv[0][3] ? 0 : argv[0][2]) {
 				case '1': set_bool_flag(&BUILD_DATA.optimize1, "-O1"); break;
 				case '2': set_bool_flag(&BUILD_DATA.optimize2, "-O2"); break;
 				case '3': set_bool_flag(&BUILD_DATA.optimize3, "-O3"); break;
-- 
2.43.0


From 66b6775237dad3f6c0dd3ab5a1f997945c63a42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:48 +0000
Subject: [PATCH 41/56] fix: object and assembly files contain the built-in
 helpers they use

---
 skull/codegen/llvm/write.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 667b7d8..73f3a56 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -39,7 +39,7 @@ static PhaseResult verify_llvm(const SkullStateLLVM *);
 static PhaseResult optimize_llvm(SkullStateLLVM *);
 static PhaseResult emit_stage_1(const char *, SkullStateLLVM *);
 static PhaseResult emit_native_binary(void);
-static bool add_start_shim(SkullStateLLVM *);
+static void add_start_shim(SkullStateLLVM *);
 static bool llvm_insert_builtins(SkullStateLLVM *);
 static bool will_build_binary(void);
 static int sh(char *[]);
@@ -56,7 +56,12 @@ bool write_llvm(const char *filename, SkullStateLLVM *state) {
 
 	// we need to add more LLVM boilerplate if we end up needing to actually
 	// create a binary, though we still want it to be verified+optimized
-	if (will_build_binary() && !add_start_shim(state)) return PHASE_ERR;
+	if (will_build_binary()) add_start_shim(state);
+
+	// the built-ins are declared but not defined when only IR is wanted
+	if (!BUILD_DATA.preprocess && !llvm_insert_builtins(state)) {
+		return PHASE_ERR;
+	}
 
 	PhaseResult result = verify_llvm(state);
 	if (result != PHASE_NEXT) return result;
@@ -347,10 +352,8 @@ static bool will_build_binary(void) {
 
 /*
 Add custom _start function (allows for using "main" as a function name).
-
-Return `false` if an error occurred.
 */
-static bool add_start_shim(SkullStateLLVM *state) {
+static void add_start_shim(SkullStateLLVM *state) {
 	LLVMTypeRef start_type = type_to_llvm_func_type(
 		&TYPE_VOID, NULL, 0, state
 	);
@@ -406,8 +409,6 @@ static bool add_start_shim(SkullStateLLVM *state) {
 	// we could add a noreturn attribute to the exit call, but this is easier
 	// for now
 	LLVMBuildRetVoid(state->builder);
-
-	return llvm_insert_builtins(state);
 }
 
 /*
@@ -447,5 +448,15 @@ static bool llvm_insert_builtins(SkullStateLLVM *state) {
 		return false;
 	}
 
+	// every object file has its own copy of those that it needs
+	const char *const names[] = { "_float_pow", "_int_pow", "_strcmp" };
+
+	for (size_t i = 0; i < sizeof names / sizeof *names; i++) {
+		LLVMValueRef func = LLVMGetNamedFunction(state->module, names[i]);
+
+		if (!LLVMGetFirstUse(func)) LLVMDeleteFunction(func);
+		else LLVMSetLinkage(func, LLVMInternalLinkage);
+	}
+
 	return true;
 }
-- 
2.43.0


From 60169469baf6b5f49d21276552732e392c96a3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:54 +0000
Subject: [PATCH 42/56] fix: private names never take the name of an external,
 exported or startup symbol

---
 skull/codegen/llvm/assign.c |  2 ++
 skull/codegen/llvm/expr.c   |  2 ++
 skull/codegen/llvm/func.c   | 26 +++++++++++++++++---------
 skull/codegen/llvm/shared.c | 16 ++++++++++++++++
 skull/codegen/llvm/shared.h |  1 +
 skull/codegen/llvm/write.c  | 14 +++++++++-----
 6 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index de3f23b..c3b2a34 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -62,6 +62,8 @@ static void setup_var_llvm(
 	var->is_const_lit = is_const_literal;
 
 	if (var->is_global) {
+		if (var->is_exported) reserve_linkage_name(var->linkage_name, state);
+
 		var->ref = LLVMAddGlobal(
 			state->module,
 			type_to_llvm_type(var->type, state),
diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 653b81a..3540d77 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -447,6 +447,8 @@ static Expr create_and_call_builtin_oper(
 	LLVMValueRef rhs,
 	const SkullStateLLVM *state
 ) {
+	reserve_linkage_name(name, state);
+
 	LLVMValueRef func = LLVMGetNamedFunction(state->module, name);
 
 	LLVMTypeRef func_type = type_to_llvm_func_type(
diff --git a/skull/codegen/llvm/func.c b/skull/codegen/llvm/func.c
index 5c6612d..4f9cdfc 100644
--- a/skull/codegen/llvm/func.c
+++ b/skull/codegen/llvm/func.c
@@ -67,20 +67,28 @@ static void add_func(Symbol *symbol, const SkullStateLLVM *state) {
 	);
 	free(params);
 
-	func->ref = LLVMAddFunction(
-		state->module,
-		symbol->linkage_name,
-		func->type
-	);
+	const bool is_private = !func->is_external && !func->is_export;
+
+	if (!is_private) reserve_linkage_name(symbol->linkage_name, state);
+
+	func->ref = func->is_external ?
+		LLVMGetNamedFunction(state->module, symbol->linkage_name) :
+		NULL;
+
+	if (!func->ref) {
+		func->ref = LLVMAddFunction(
+			state->module,
+			symbol->linkage_name,
+			func->type
+		);
+	}
 
 	LLVMSetLinkage(
 		func->ref,
-		(func->is_external || func->is_export) ?
-			LLVMExternalLinkage :
-			LLVMPrivateLinkage
+		is_private ? LLVMPrivateLinkage : LLVMExternalLinkage
 	);
 
-	if (func->is_external || func->is_export) add_bool_attributes(func, state);
+	if (!is_private) add_bool_attributes(func, state);
 }
 
 /*
diff --git a/skull/codegen/llvm/shared.c b/skull/codegen/llvm/shared.c
index 63d13b9..b735741 100644
--- a/skull/codegen/llvm/shared.c
+++ b/skull/codegen/llvm/shared.c
@@ -101,6 +101,22 @@ LLVMValueRef build_alloca(
 	return alloca_;
 }
 
+/*
+Make sure that what is added to the module as `name` next gets exactly that
+name, since others (the linker, for instance) know it by that name.
+
+The names of private functions and variables do not matter outside of the
+module, so they have to give way.
+*/
+void reserve_linkage_name(const char *name, const SkullStateLLVM *state) {
+	LLVMValueRef value = LLVMGetNamedFunction(state->module, name);
+	if (!value) value = LLVMGetNamedGlobal(state->module, name);
+
+	if (value && LLVMGetLinkage(value) == LLVMPrivateLinkage) {
+		LLVMSetValueName2(value, "", 0);
+	}
+}
+
 /*
 Free everything about a Skull LLVM compiler instance.
 */
diff --git a/skull/codegen/llvm/shared.h b/skull/codegen/llvm/shared.h
index 5a9bee1..5d1f69a 100644
--- a/skull/codegen/llvm/shared.h
+++ b/skull/codegen/llvm/shared.h
@@ -21,4 +21,5 @@ typedef struct {
 
 SkullStateLLVM *setup_llvm_state(SemanticState *);
 LLVMValueRef build_alloca(const Type *, const char *, const SkullStateLLVM *);
+void reserve_linkage_name(const char *, const SkullStateLLVM *);
 void free_llvm_state(SkullStateLLVM *);
diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 73f3a56..fc4a304 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -358,6 +358,8 @@ static void add_start_shim(SkullStateLLVM *state) {
 		&TYPE_VOID, NULL, 0, state
 	);
 
+	reserve_linkage_name("_start", state);
+
 	LLVMValueRef start_func = LLVMAddFunction(
 		state->module,
 		"_start",
@@ -374,11 +376,13 @@ static void add_start_shim(SkullStateLLVM *state) {
 		state
 	);
 
-	LLVMValueRef exit_func = LLVMAddFunction(
-		state->module,
-		"exit",
-		exit_func_type
-	);
+	reserve_linkage_name("exit", state);
+
+	LLVMValueRef exit_func = LLVMGetNamedFunction(state->module, "exit");
+
+	if (!exit_func) {
+		exit_func = LLVMAddFunction(state->module, "exit", exit_func_type);
+	}
 
 	LLVMBasicBlockRef entry = LLVMAppendBasicBlockInContext(
 		state->ctx,
-- 
2.43.0


From a6310bfee200d264cbffe06952dd48807d324db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:28 +0000
Subject: [PATCH 43/56] fix: a linker whose exit status is unavailable or that
 is killed is reported

---
 skull/codegen/llvm/write.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index fc4a304..fc68648 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -1,4 +1,5 @@
 #include <errno.h>
+#include <signal.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -220,9 +221,11 @@ static PhaseResult emit_native_binary(void) {
 }
 
 static int sh(char *argv[]) {
-	errno = 0;
+	// the exit code would not be available if our parent ignores this signal
+	signal(SIGCHLD, SIG_DFL);
+
 	const pid_t pid = fork();
-	if (errno) {
+	if (pid == -1) {
 		perror("fork");
 		return 1;
 	}
@@ -235,9 +238,17 @@ static int sh(char *argv[]) {
 	}
 
 	int status = 0;
-	wait(&status);
+	if (waitpid(pid, &status, 0) == -1) {
+		perror("waitpid");
+		return 1;
+	}
+
+	if (!WIFEXITED(status)) {
+		fprintf(stderr, "skull: \"cc\" ended unexpectedly\n");
+		return 1;
+	}
 
-	return WIFEXITED(status) ? WEXITSTATUS(status) : 1;
+	return WEXITSTATUS(status);
 }
 
 static int shell(char *cmd) {
-- 
2.43.0


From bbd3adc421ec1d30e0a173bef7e5a726d5796407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:34 +0000
Subject: [PATCH 44/56] fix: help, version and C code that cannot be written to
 stdout are reported

---
 skull/cli.c             | 15 +++++++++++++--
 skull/codegen/c/write.c |  4 +---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index 9f91c9a..cb0bfd8 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -16,6 +16,7 @@
 
 static int usage(void);
 static int version(void);
+static int flush_stdout(void);
 static void handle_env(void);
 static void set_bool_flag(bool *, const char *);
 static void check_duplicate_flag(bool, const char *);
@@ -192,7 +193,7 @@ printf("skull [-v|--version|-h|--help]\n\n" \
 );
 
 
-	return 0;
+	return flush_stdout();
 }
 
 static int version(void) {
@@ -229,7 +230,17 @@ static int version(void) {
 #endif
 
 	printf("\033[92mSkull\033[0m %s\n", version_buf);
-	return 0;
+	return flush_stdout();
+}
+
+/*
+Return non-zero if something that was printed could not be written.
+*/
+static int flush_stdout(void) {
+	if (fflush(stdout) == 0 && !ferror(stdout)) return 0;
+
+	fprintf(stderr, "skull: cannot write to stdout\n");
+	return 1;
 }
 
 // return true if an error occurs
diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 52b9196..6a69d76 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -44,10 +44,8 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 	print_main_shim(f, module_name, state);
 	free(module_name);
 
-	if (f == stdout) return fflush(f) != 0 || ferror(f);
-
 	bool err = ferror(f);
-	if (fclose(f) != 0) err = true;
+	if ((f == stdout ? fflush(f) : fclose(f)) != 0) err = true;
 	if (err) fprintf(stderr, "skull: error while writing C file\n");
 
 	return err;
-- 
2.43.0


From 15ac38ecef0c9315df48fc621f4c7982533095d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:45 +0000
Subject: [PATCH 45/56] fix: a string copy that runs out of memory is reported
 like any other allocation

---
 skull/cli.c                |  5 +++--
 skull/codegen/c/expr.c     | 10 +++++-----
 skull/codegen/c/flow.c     | 11 ++++++-----
 skull/codegen/c/types.c    | 12 ++++++------
 skull/codegen/llvm/write.c |  3 ++-
 skull/codegen/shared.c     |  5 +++--
 skull/common/errors.c      |  7 ++++---
 skull/common/malloc.c      | 11 +++++++++++
 skull/common/malloc.h      |  1 +
 skull/semantic/flow.c      |  2 +-
 skull/semantic/func.c      |  4 ++--
 skull/semantic/import.c    |  2 +-
 12 files changed, 45 insertions(+), 28 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index cb0bfd8..7c3a37a 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -6,6 +6,7 @@
 #include <string.h>
 
 #include "skull/build_data.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/real_main.h"
 #include "skull/version.h"
@@ -52,7 +53,7 @@ int main(int argc, char *argv[]) {
 		return 1;
 	}
 
-	char *binary_name = strdup(BUILD_DATA.filename); // NOLINT
+	char *binary_name = Strdup(BUILD_DATA.filename); // NOLINT
 	err = real_main(2, (char *[]){ NULL, binary_name, NULL });
 	free(binary_name);
 	free(BUILD_DATA.out_file);
@@ -138,7 +139,7 @@ static int handle_args(int argc, char *argv[]) {
 			}
 
 			free(BUILD_DATA.out_file);
-			BUILD_DATA.out_file = strdup(argv[1]);
+			BUILD_DATA.out_file = Strdup(argv[1]);
 			argc--;
 			argv++;
 			break;
diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index 2ab304b..171ac3d 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -26,7 +26,7 @@ CExpr gen_expr_c(const AstNodeExpr *expr, SkullStateC *state) {
 		case EXPR_CONST:
 			return gen_expr_const_c(expr);
 		case EXPR_IDENTIFIER:
-			return strdup(expr->symbol->var->name);
+			return Strdup(expr->symbol->var->name);
 		case EXPR_ADD:
 		case EXPR_SUB:
 		case EXPR_MULT:
@@ -70,10 +70,10 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 		return uvsnprintf("%li", i);
 	}
 	if (expr->type == &TYPE_FLOAT) {
-		if (!expr->value._int) return strdup("0.0");
-		if (isnan(expr->value._float)) return strdup("__builtin_nan(\"\")");
+		if (!expr->value._int) return Strdup("0.0");
+		if (isnan(expr->value._float)) return Strdup("__builtin_nan(\"\")");
 		if (isinf(expr->value._float)) {
-			return strdup(
+			return Strdup(
 				expr->value._float < 0 ?
 					"-__builtin_inf()" :
 					"__builtin_inf()"
@@ -85,7 +85,7 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 		return uvsnprintf("%a", expr->value._float);
 	}
 	if (expr->type == &TYPE_BOOL) {
-		return strdup(expr->value._bool ? "1" : "0");
+		return Strdup(expr->value._bool ? "1" : "0");
 	}
 	if (expr->type == &TYPE_RUNE) {
 		return uvsnprintf("0x%X", expr->value.rune);
diff --git a/skull/codegen/c/flow.c b/skull/codegen/c/flow.c
index 9022c0f..2e360cb 100644
--- a/skull/codegen/c/flow.c
+++ b/skull/codegen/c/flow.c
@@ -1,6 +1,7 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/codegen/c/core.h"
 #include "skull/codegen/c/expr.h"
@@ -12,7 +13,7 @@
 static CBlock gen_control_block_c(const AstNode *, const char *, SkullStateC *);
 
 CStmt gen_stmt_return_c(const AstNode *node, SkullStateC *state) {
-	if (!node->expr) return strdup("return;");
+	if (!node->expr) return Strdup("return;");
 
 	CExpr expr_str = gen_expr_c(node->expr, state);
 	CStmt stmt = uvsnprintf("return %s;", expr_str);
@@ -24,25 +25,25 @@ CStmt gen_stmt_return_c(const AstNode *node, SkullStateC *state) {
 CStmt gen_stmt_noop_c(const AstNode *node) {
 	(void)node;
 
-	return strdup("(void)0;");
+	return Strdup("(void)0;");
 }
 
 CStmt gen_stmt_unreachable_c(const AstNode *node) {
 	(void)node;
 
-	return strdup("while (1) {}");
+	return Strdup("while (1) {}");
 }
 
 CStmt gen_stmt_break_c(const AstNode *node) {
 	(void)node;
 
-	return strdup("break;");
+	return Strdup("break;");
 }
 
 CStmt gen_stmt_continue_c(const AstNode *node) {
 	(void)node;
 
-	return strdup("continue;");
+	return Strdup("continue;");
 }
 
 CBlock gen_control_if_c(const AstNode *node, SkullStateC *state) {
diff --git a/skull/codegen/c/types.c b/skull/codegen/c/types.c
index 20c0697..2b4eccb 100644
--- a/skull/codegen/c/types.c
+++ b/skull/codegen/c/types.c
@@ -5,12 +5,12 @@
 #include "skull/codegen/c/types.h"
 
 char *__attribute__((pure)) skull_type_to_c_type(const Type *type) {
-	if (type == &TYPE_INT) return strdup(TYPE_INT_C);
-	if (type == &TYPE_FLOAT) return strdup(TYPE_FLOAT_C);
-	if (type == &TYPE_RUNE) return strdup(TYPE_RUNE_C);
-	if (type == &TYPE_STR) return strdup(TYPE_STR_C);
-	if (type == &TYPE_BOOL) return strdup(TYPE_BOOL_C);
-	if (type == &TYPE_VOID) return strdup(TYPE_VOID_C);
+	if (type == &TYPE_INT) return Strdup(TYPE_INT_C);
+	if (type == &TYPE_FLOAT) return Strdup(TYPE_FLOAT_C);
+	if (type == &TYPE_RUNE) return Strdup(TYPE_RUNE_C);
+	if (type == &TYPE_STR) return Strdup(TYPE_STR_C);
+	if (type == &TYPE_BOOL) return Strdup(TYPE_BOOL_C);
+	if (type == &TYPE_VOID) return Strdup(TYPE_VOID_C);
 	if (type->inner) {
 		char *inner = skull_type_to_c_type(type->inner);
 
diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index fc68648..246e2de 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -23,6 +23,7 @@
 #include "skull/codegen/llvm/write.h"
 #include "skull/codegen/shared.h"
 #include "skull/common/io.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/symbol.h"
@@ -155,7 +156,7 @@ static PhaseResult output_llvm_ir(
 }
 
 static char *get_binary_name(void) {
-	char *binary_name = strdup(BUILD_DATA.filename); // NOLINT
+	char *binary_name = Strdup(BUILD_DATA.filename); // NOLINT
 	char *last_dot = strrchr(binary_name, '.');
 	binary_name[last_dot - binary_name] = '\0';
 
diff --git a/skull/codegen/shared.c b/skull/codegen/shared.c
index 8b59ddf..bab07a9 100644
--- a/skull/codegen/shared.c
+++ b/skull/codegen/shared.c
@@ -3,6 +3,7 @@
 
 #include "skull/common/io.h"
 #include "skull/build_data.h"
+#include "skull/common/malloc.h"
 
 #include "skull/codegen/shared.h"
 
@@ -10,10 +11,10 @@ char *get_new_filename(const char *filename, const char *extension) {
 	if (BUILD_DATA.out_file && (
 		BUILD_DATA.preprocess || BUILD_DATA.c_backend
 	)) {
-		return strdup(BUILD_DATA.out_file);
+		return Strdup(BUILD_DATA.out_file);
 	}
 	if (BUILD_DATA.preprocess) {
-		return strdup("-");
+		return Strdup("-");
 	}
 
 	return gen_filename(filename, extension);
diff --git a/skull/common/errors.c b/skull/common/errors.c
index 41f9f5f..6370b58 100644
--- a/skull/common/errors.c
+++ b/skull/common/errors.c
@@ -6,6 +6,7 @@
 
 #include "skull/build_data.h"
 #include "skull/common/color.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/common/vector.h"
 #include "skull/semantic/variable.h"
@@ -195,7 +196,7 @@ static char *get_error_msg(
 	size_t num_of_percents, // NOLINT
 	ErrorCode id
 ) {
-	if (num_of_percents == 0) return strdup(errors[id]);
+	if (num_of_percents == 0) return Strdup(errors[id]);
 
 	if (num_of_percents == 1) {
 		return uvsnprintf(
@@ -235,9 +236,9 @@ value. This is due to `0` being falsey, and thus not being able to be checked.
 */
 void message_stringify(Message *const msg) {
 	if (msg->var)
-		msg->real = strdup(msg->var->name);
+		msg->real = Strdup(msg->var->name);
 	else if (msg->type)
-		msg->real = strdup(msg->type->name);
+		msg->real = Strdup(msg->type->name);
 	else if (msg->str32)
 		msg->real = c32stombs(msg->str32, NULL);
 	else if (msg->i)
diff --git a/skull/common/malloc.c b/skull/common/malloc.c
index 86acf6e..b9f8bb8 100644
--- a/skull/common/malloc.c
+++ b/skull/common/malloc.c
@@ -1,4 +1,5 @@
 #include <stdio.h>
+#include <string.h>
 
 #include "skull/common/malloc.h"
 
@@ -41,5 +42,15 @@ void *Realloc(void *ptr, size_t size) {
 	return new_ptr;
 }
 
+/*
+`NULL` safe wrapper for `strdup`
+*/
+char *Strdup(const char *str) {
+	char *copy = strdup(str);
+	DIE_IF_MALLOC_FAILS(copy);
+
+	return copy;
+}
+
 #undef DIE_IF_MALLOC_FAILS
 
diff --git a/skull/common/malloc.h b/skull/common/malloc.h
index 839894f..a398b6e 100644
--- a/skull/common/malloc.h
+++ b/skull/common/malloc.h
@@ -5,3 +5,4 @@
 void *Malloc(size_t);
 void *Calloc(size_t, size_t);
 void *Realloc(void *, size_t);
+char *Strdup(const char *);
diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index 79ab6d6..13d4114 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -59,7 +59,7 @@ static bool is_valid_return_expr(SemanticState *state, const AstNode *node) {
 
 	if (return_type == &TYPE_VOID) {
 		FMT_ERROR(ERR_NO_VOID_RETURN, {
-			.real = strdup(state->current_func->name)
+			.real = Strdup(state->current_func->name)
 		});
 
 		return false;
diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 8dcebbd..189eb4d 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -118,12 +118,12 @@ static bool post_validate_stmt_func_decl(
 		!!terminal_node->expr;
 
 	if (!returned_value && func->return_type != &TYPE_VOID) {
-		FMT_ERROR(ERR_EXPECTED_RETURN, { .real = strdup(symbol->name) });
+		FMT_ERROR(ERR_EXPECTED_RETURN, { .real = Strdup(symbol->name) });
 
 		return false;
 	}
 	if (returned_value && func->return_type == &TYPE_VOID) {
-		FMT_ERROR(ERR_NO_VOID_RETURN, { .real = strdup(symbol->name) });
+		FMT_ERROR(ERR_NO_VOID_RETURN, { .real = Strdup(symbol->name) });
 
 		return false;
 	}
diff --git a/skull/semantic/import.c b/skull/semantic/import.c
index d64c403..e618c7b 100644
--- a/skull/semantic/import.c
+++ b/skull/semantic/import.c
@@ -58,7 +58,7 @@ static char *filename_for_module(char *module_name) {
 }
 
 static char *current_file_dir(void) {
-	char *directory = strdup(BUILD_DATA.filename);
+	char *directory = Strdup(BUILD_DATA.filename);
 	char *slash = strrchr(directory, '/');
 	if (slash && directory != slash) {
 		*slash = '\0';
-- 
2.43.0


From 8ba1c0e1268f8eb7debff1fb851710f77fc31bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:05 +0000
Subject: [PATCH 46/56] fix: -o names the executable, and not its temporary
 object file

---
 skull/codegen/llvm/write.c | 45 ++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 246e2de..7645c35 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -46,6 +46,7 @@ static bool llvm_insert_builtins(SkullStateLLVM *);
 static bool will_build_binary(void);
 static int sh(char *[]);
 static int shell(char *);
+static char *get_object_name(void);
 static char *get_binary_name(void);
 static bool check_directory(char *);
 
@@ -155,7 +156,24 @@ static PhaseResult output_llvm_ir(
 	return PHASE_DONE;
 }
 
+/*
+Name of the object or assembly file, which is only temporary when a binary is
+being built.
+*/
+static char *get_object_name(void) {
+	if (BUILD_DATA.out_file && !will_build_binary()) {
+		return Strdup(BUILD_DATA.out_file);
+	}
+
+	return gen_filename(
+		BUILD_DATA.filename,
+		BUILD_DATA.asm_backend ? "s" : "o"
+	);
+}
+
 static char *get_binary_name(void) {
+	if (BUILD_DATA.out_file) return Strdup(BUILD_DATA.out_file);
+
 	char *binary_name = Strdup(BUILD_DATA.filename); // NOLINT
 	char *last_dot = strrchr(binary_name, '.');
 	binary_name[last_dot - binary_name] = '\0';
@@ -191,12 +209,15 @@ static PhaseResult emit_native_binary(void) {
 	char *binary_name = get_binary_name();
 	bool err = check_directory(binary_name);
 
+	char *object_name = get_object_name();
+
 	if (err) {
-		remove(BUILD_DATA.out_file);
+		remove(object_name);
+		free(object_name);
 		return PHASE_ERR;
 	}
 
-	char *quoted_out_file = shell_quote(BUILD_DATA.out_file);
+	char *quoted_out_file = shell_quote(object_name);
 	char *quoted_binary_name = shell_quote(binary_name);
 
 	char *shim = uvsnprintf(
@@ -212,9 +233,10 @@ static PhaseResult emit_native_binary(void) {
 	const bool exit_code = shell(shim);
 
 	errno = 0;
-	remove(BUILD_DATA.out_file);
+	remove(object_name);
 	if (errno) perror("remove");
 
+	free(object_name);
 	free(shim);
 	free(BUILD_DATA.extra_args);
 
@@ -322,27 +344,26 @@ static PhaseResult emit_stage_1(const char *filename, SkullStateLLVM *state) {
 
 	if (setup_llvm_target_machine(state)) return PHASE_ERR;
 
-	if (!BUILD_DATA.out_file) {
-		BUILD_DATA.out_file = gen_filename(
-			BUILD_DATA.filename,
-			BUILD_DATA.asm_backend ? "s" : "o"
-		);
-	}
-
-	if (!BUILD_DATA.asm_backend && strcmp(BUILD_DATA.out_file, "-") == 0) {
+	if (
+		!BUILD_DATA.asm_backend &&
+		BUILD_DATA.out_file &&
+		strcmp(BUILD_DATA.out_file, "-") == 0
+	) {
 		fprintf(stderr, "skull: cannot print binary file to stdout\n");
 		return PHASE_ERR;
 	}
 
+	char *object_name = get_object_name();
 	char *err_msg = NULL;
 
 	const bool err = LLVMTargetMachineEmitToFile(
 		state->target_machine,
 		state->module,
-		BUILD_DATA.out_file,
+		object_name,
 		BUILD_DATA.asm_backend ? LLVMAssemblyFile : LLVMObjectFile,
 		&err_msg
 	);
+	free(object_name);
 
 	if (err || err_msg) {
 		fprintf(stderr, "skull: \"%s\"\n", err_msg);
-- 
2.43.0


From d7fc80b15f4587c255b8471036ae757e90a23a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:45 +0000
Subject: [PATCH 47/56] fix: blocks without statements of their own are empty
 in the C backend, not (null)

---
 skull/codegen/c/flow.c | 15 ++++++++++++---
 skull/codegen/c/func.c |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/skull/codegen/c/flow.c b/skull/codegen/c/flow.c
index 2e360cb..ef43ac1 100644
--- a/skull/codegen/c/flow.c
+++ b/skull/codegen/c/flow.c
@@ -55,7 +55,11 @@ CBlock gen_control_elif_c(const AstNode *node, SkullStateC *state) {
 }
 CBlock gen_control_else_c(const AstNode *node, SkullStateC *state) {
 	CTree tree = gen_tree_c(node->child, state);
-	CBlock block = uvsnprintf("else {\n%s\n%s}", tree, get_indentation(state));
+	CBlock block = uvsnprintf(
+		"else {\n%s\n%s}",
+		tree ? tree : "",
+		get_indentation(state)
+	);
 
 	free(tree);
 	return block;
@@ -70,7 +74,7 @@ CBlock gen_control_namespace_c(const AstNode *node, SkullStateC *state) {
 	CBlock block = uvsnprintf(
 		"\"%s\"; {\n%s\n%s}",
 		node->symbol->name,
-		tree,
+		tree ? tree : "",
 		get_indentation(state)
 	);
 
@@ -85,7 +89,12 @@ static CBlock gen_control_block_c(
 ) {
 	CExpr expr_str = gen_expr_c(node->expr, state);
 	CTree tree = gen_tree_c(node->child, state);
-	CBlock block = uvsnprintf(fmt, expr_str, tree, get_indentation(state));
+	CBlock block = uvsnprintf(
+		fmt,
+		expr_str,
+		tree ? tree : "",
+		get_indentation(state)
+	);
 
 	free(tree);
 	free(expr_str);
diff --git a/skull/codegen/c/func.c b/skull/codegen/c/func.c
index 071ffc2..32648da 100644
--- a/skull/codegen/c/func.c
+++ b/skull/codegen/c/func.c
@@ -104,7 +104,7 @@ char *gen_function_prototype_c(const AstNode *node, SkullStateC *state) {
 			return_type,
 			symbol->name,
 			param_list,
-			tree
+			tree ? tree : ""
 		);
 
 		out = apply_debug_info(out, node);
-- 
2.43.0


From 5cdbacc034da2a10f5b24d4384ac15db63cddf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:24 +0000
Subject: [PATCH 48/56] fix: C backend initialized global strings and
 references with non-constant expressions

---
 skull/codegen/c/assign.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index a280bd7..8ef62bc 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -1,3 +1,4 @@
+#include <stdbool.h>
 #include <assert.h>
 #include <stddef.h>
 #include <stdlib.h>
@@ -71,7 +72,11 @@ static CStmt gen_stmt_global_var(
 ) {
 	const Variable *var = node->var_def->symbol->var;
 
-	if (var->expr->is_const_expr) {
+	// the value of a pointer variable is not a constant expression in C
+	const bool copies_pointer = var->expr->oper == EXPR_IDENTIFIER &&
+		(var->type == &TYPE_STR || var->type->inner);
+
+	if (var->expr->is_const_expr && !copies_pointer) {
 		gen_stmt_constexpt_global_var(var, type, state);
 
 		return NULL;
-- 
2.43.0


From 74003d244b8b0ecdf56fabef7a9e37fa2e051c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:41 +0000
Subject: [PATCH 49/56] fix: runes followed by further quoted text were
 accepted

---
 skull/semantic/types.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index 2b1e395..1103084 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -115,7 +115,8 @@ char32_t eval_rune(const Token *const token, bool *err) {
 		return '\0';
 	}
 
-	if (start[1] != '\'') {
+	// the closing quote must follow, and must be the end of the token
+	if (start + 2 != token->begin + token->len) {
 		*err = true;
 		FMT_ERROR(ERR_RUNE_TOO_LONG, { .loc = &token->location });
 		return '\0';
-- 
2.43.0


From b1ebe831c2846a6d9246caa610f158cc44c9eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:09 +0000
Subject: [PATCH 50/56] fix: assignments were attributed to the line of the
 declaration in debug info

---
 skull/codegen/llvm/assign.c | 11 +++++++----
 skull/codegen/llvm/assign.h |  7 ++++++-
 skull/codegen/llvm/core.c   |  7 ++++++-
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index c3b2a34..ee789fe 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -18,6 +18,7 @@
 static void assign_value_to_var(
 	LLVMValueRef,
 	Symbol *,
+	const Location *,
 	const SkullStateLLVM *
 );
 static void setup_var_llvm(LLVMValueRef, Symbol *, const SkullStateLLVM *);
@@ -42,11 +43,12 @@ Assign a to a variable from `var_assign`.
 */
 void gen_stmt_var_assign(
 	const AstNodeVarAssign *var_assign,
+	const Location *location,
 	SkullStateLLVM *state
 ) {
 	LLVMValueRef value = gen_expr(var_assign->expr, state).value;
 
-	assign_value_to_var(value, var_assign->symbol, state);
+	assign_value_to_var(value, var_assign->symbol, location, state);
 }
 
 static void setup_var_llvm(
@@ -91,15 +93,16 @@ static void setup_var_llvm(
 		var->ref = build_alloca(var->type, var->linkage_name, state);
 	}
 
-	assign_value_to_var(value, symbol, state);
+	assign_value_to_var(value, symbol, &symbol->location, state);
 }
 
 /*
-Assign `value` to `symbol`.
+Assign `value` to `symbol`, which is done at `location`.
 */
 static void assign_value_to_var(
 	LLVMValueRef value,
 	Symbol *symbol,
+	const Location *location,
 	const SkullStateLLVM *state
 ) {
 	Variable *var = symbol->var;
@@ -115,7 +118,7 @@ static void assign_value_to_var(
 			var->ref
 		);
 
-		add_llvm_debug_info(store, &symbol->location, state);
+		add_llvm_debug_info(store, location, state);
 	}
 }
 
diff --git a/skull/codegen/llvm/assign.h b/skull/codegen/llvm/assign.h
index 34079af..6100f88 100644
--- a/skull/codegen/llvm/assign.h
+++ b/skull/codegen/llvm/assign.h
@@ -2,8 +2,13 @@
 
 typedef struct AstNodeVarAssign AstNodeVarAssign;
 typedef struct AstNodeVarDef AstNodeVarDef;
+typedef struct Location Location;
 
 #include "skull/codegen/llvm/shared.h"
 
 void gen_stmt_var_def(const AstNodeVarDef *, SkullStateLLVM *);
-void gen_stmt_var_assign(const AstNodeVarAssign *, SkullStateLLVM *);
+void gen_stmt_var_assign(
+	const AstNodeVarAssign *,
+	const Location *,
+	SkullStateLLVM *
+);
diff --git a/skull/codegen/llvm/core.c b/skull/codegen/llvm/core.c
index b914d5a..9b4ac4b 100644
--- a/skull/codegen/llvm/core.c
+++ b/skull/codegen/llvm/core.c
@@ -46,7 +46,12 @@ static Expr gen_node(const AstNode **node, SkullStateLLVM *state) {
 		case AST_NODE_VAR_DEF:
 			gen_stmt_var_def((*node)->var_def, state); break;
 		case AST_NODE_VAR_ASSIGN:
-			gen_stmt_var_assign((*node)->var_assign, state); break;
+			gen_stmt_var_assign(
+				(*node)->var_assign,
+				&(*node)->token->location,
+				state
+			);
+			break;
 		case AST_NODE_EXPR:
 			gen_expr_func_call((*node)->expr->lhs.func_call, state); break;
 		case AST_NODE_NOOP:
-- 
2.43.0


From 95168f7a36d0e5ea1f1a47bc26cf894196ab7cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:54 +0000
Subject: [PATCH 51/56] fix: debug info took the values of immutable variables
 for their addresses

---
 skull/codegen/llvm/debug.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/skull/codegen/llvm/debug.c b/skull/codegen/llvm/debug.c
index b8c1f2b..d796c50 100644
--- a/skull/codegen/llvm/debug.c
+++ b/skull/codegen/llvm/debug.c
@@ -279,14 +279,25 @@ static void add_llvm_local_var_def_debug_info(
 		8 // alignment
 	);
 
-	LLVMDIBuilderInsertDeclareRecordAtEnd(
-		DEBUG_INFO.builder,
-		symbol->var->ref,
-		di_var,
-		LLVMDIBuilderCreateExpression(DEBUG_INFO.builder, NULL, 0),
-		make_llvm_debug_location(&symbol->location, state),
-		LLVMGetInsertBlock(state->builder)
+	LLVMMetadataRef expr = LLVMDIBuilderCreateExpression(
+		DEBUG_INFO.builder, NULL, 0
 	);
+	LLVMMetadataRef location = make_llvm_debug_location(
+		&symbol->location, state
+	);
+	LLVMBasicBlockRef block = LLVMGetInsertBlock(state->builder);
+
+	// immutable variables are values, they don't have an address
+	if (symbol->var->is_const) {
+		LLVMDIBuilderInsertDbgValueRecordAtEnd(
+			DEBUG_INFO.builder, symbol->var->ref, di_var, expr, location, block
+		);
+	}
+	else {
+		LLVMDIBuilderInsertDeclareRecordAtEnd(
+			DEBUG_INFO.builder, symbol->var->ref, di_var, expr, location, block
+		);
+	}
 }
 
 LLVMMetadataRef add_llvm_control_flow_debug_info(const Location *location) {
-- 
2.43.0


From d44d63d6c58780a2925202045da2df8dd15cbecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:16 +0000
Subject: [PATCH 52/56] fix: calls on different lines were merged when
 compiling for debugging

---
 skull/codegen/llvm/write.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 7645c35..db53a58 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -308,12 +308,19 @@ static bool setup_llvm_target_machine(SkullStateLLVM *state) {
 	char *cpu = LLVMGetHostCPUName();
 	char *features = LLVMGetHostCPUFeatures();
 
+	const bool optimize = BUILD_DATA.optimize1 ||
+		BUILD_DATA.optimize2 ||
+		BUILD_DATA.optimize3;
+
 	state->target_machine = LLVMCreateTargetMachine(
 		target,
 		triple,
 		cpu,
 		features,
-		LLVMCodeGenLevelDefault,
+		// merging equal instructions of different lines would confuse debuggers
+		BUILD_DATA.debug && !optimize ?
+			LLVMCodeGenLevelNone :
+			LLVMCodeGenLevelDefault,
 		LLVMRelocDefault,
 		LLVMCodeModelDefault
 	);
-- 
2.43.0


From 76a8f0546cfa355fc43e3d483a39b60ec963fd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:56 +0000
Subject: [PATCH 53/56] fix: modules imported by a file at the root were looked
 for in the working directory

---
 skull/semantic/import.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/import.c b/skull/semantic/import.c
index e618c7b..ec32af1 100644
--- a/skull/semantic/import.c
+++ b/skull/semantic/import.c
@@ -60,7 +60,10 @@ static char *filename_for_module(char *module_name) {
 static char *current_file_dir(void) {
 	char *directory = Strdup(BUILD_DATA.filename);
 	char *slash = strrchr(directory, '/');
-	if (slash && directory != slash) {
+	if (slash == directory) {
+		directory[1] = '\0';
+	}
+	else if (slash) {
 		*slash = '\0';
 	}
 	else {
-- 
2.43.0


From 996276be7506fd28110802c320fcd89ddac1bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:08 +0000
Subject: [PATCH 54/56] fix: source files were not read as UTF-8 in other
 locales

---
 skull/common/local.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skull/common/local.c b/skull/common/local.c
index beb8b08..b16657d 100644
--- a/skull/common/local.c
+++ b/skull/common/local.c
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <langinfo.h>
 #include <locale.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -11,8 +12,9 @@
 #endif
 
 /*
-If system local is not set, default to "C.UTF-8". Throw assertion if system
-does not support UTF-32, and exit if unable to setup a UTF-8 environment.
+If system local is not set, or is not UTF-8, default to "C.UTF-8". Throw
+assertion if system does not support UTF-32, and exit if unable to setup a
+UTF-8 environment.
 */
 void setup_locale(void) {
 	static_assert(__STDC_UTF_32__,
@@ -23,7 +25,7 @@ void setup_locale(void) {
 	const char *locale = "";
 	const char *set_locale = setlocale(LC_CTYPE, "");
 
-	if (!set_locale || strcmp("C", set_locale) == 0) {
+	if (!set_locale || strcmp("UTF-8", nl_langinfo(CODESET)) != 0) {
 		locale = "C.UTF-8";
 	}
 	if (!setlocale(LC_CTYPE, locale)) {
-- 
2.43.0


From 4aeefc568c5e7819080da7ef26377a63e9c292e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:27 +0000
Subject: [PATCH 55/56] fix: more than 65535 parameters or arguments were
 miscounted

---
 skull/codegen/c/expr.c    | 4 ++--
 skull/codegen/c/func.c    | 2 +-
 skull/codegen/llvm/func.c | 2 +-
 skull/parse/ast_node.c    | 4 ++--
 skull/parse/ast_node.h    | 4 ++--
 skull/semantic/expr.c     | 2 +-
 skull/semantic/func.h     | 2 +-
 7 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index 171ac3d..7327eb3 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -216,13 +216,13 @@ static CExpr gen_expr_func_call_c(
 ) {
 	FunctionDeclaration *function = func_call->symbol->func;
 	char *name = func_call->symbol->name;
-	unsigned short num_params = function->num_params;
+	unsigned num_params = function->num_params;
 
 	if (num_params == 0) return uvsnprintf("%s()", name);
 
 	const AstNode *param = func_call->params;
 	char *param_list = NULL;
-	unsigned short at = 0;
+	unsigned at = 0;
 
 	while (at < num_params) {
 		CExpr expr = gen_expr_c(param->expr, state);
diff --git a/skull/codegen/c/func.c b/skull/codegen/c/func.c
index 32648da..1cb18cf 100644
--- a/skull/codegen/c/func.c
+++ b/skull/codegen/c/func.c
@@ -41,7 +41,7 @@ char *gen_function_prototype_c(const AstNode *node, SkullStateC *state) {
 	FunctionDeclaration *func = symbol->func;
 	AstNodeFunctionParam **params = func->params;
 	char *param_list = NULL;
-	unsigned short i = 0;
+	unsigned i = 0;
 
 	while (i < func->num_params) {
 		char *param = gen_param_c(*params);
diff --git a/skull/codegen/llvm/func.c b/skull/codegen/llvm/func.c
index 4f9cdfc..80ac4c2 100644
--- a/skull/codegen/llvm/func.c
+++ b/skull/codegen/llvm/func.c
@@ -142,7 +142,7 @@ Expr gen_expr_func_call(
 ) {
 	FunctionDeclaration *function = func_call->symbol->func;
 
-	unsigned short num_params = function->num_params;
+	unsigned num_params = function->num_params;
 
 	LLVMValueRef *params = NULL;
 	if (num_params)
diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index efa2c9a..66e2a66 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -353,7 +353,7 @@ static ParserResult parse_function_proto(ParserCtx *ctx) {
 		return RESULT_IGNORE;
 	}
 
-	const unsigned short num_params = (unsigned short)params->length;
+	const unsigned num_params = (unsigned)params->length;
 
 	ctx->node->func_proto = Malloc(
 		sizeof(AstNodeFunctionProto) +
@@ -935,7 +935,7 @@ static AstNodeExpr *parse_func_call(ParserCtx *ctx) {
 
 	ctx->token = ctx->token->next->next;
 
-	unsigned short num_values = 0;
+	unsigned num_values = 0;
 
 	while (true) {
 		if (!ctx->token) {
diff --git a/skull/parse/ast_node.h b/skull/parse/ast_node.h
index 43f85c0..df179ef 100644
--- a/skull/parse/ast_node.h
+++ b/skull/parse/ast_node.h
@@ -113,7 +113,7 @@ typedef struct AstNodeFunctionProto {
 
 	Token *return_type_token;
 
-	unsigned short num_params;
+	unsigned num_params;
 
 	Symbol *symbol;
 
@@ -129,7 +129,7 @@ Used to store special data about function call.
 typedef struct AstNodeFunctionCall {
 	const Token *func_name_tok;
 	AstNode *params;
-	unsigned short num_values;
+	unsigned num_values;
 	Symbol *symbol;
 } AstNodeFunctionCall;
 
diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index 95a092e..5ad2347 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -340,7 +340,7 @@ static bool validate_stmt_func_call(SemanticState *state, AstNodeExpr *expr) {
 	function->was_called = true;
 	expr->type = function->return_type;
 
-	unsigned short num_params = function->num_params;
+	unsigned num_params = function->num_params;
 
 	if (num_params != func_call->num_values) {
 		FMT_ERROR(ERR_INVALID_NUM_PARAMS, {
diff --git a/skull/semantic/func.h b/skull/semantic/func.h
index ffcc910..b11e53c 100644
--- a/skull/semantic/func.h
+++ b/skull/semantic/func.h
@@ -21,7 +21,7 @@ typedef struct FunctionDeclaration {
 	void *ref;
 	void *type;
 
-	unsigned short num_params;
+	unsigned num_params;
 	const Type **param_types;
 	char32_t **param_names;
 
-- 
2.43.0


From 7f99e1a4c2a2c173e4853a456bd988197d22c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:00 +0000
Subject: [PATCH 56/56] fix: a C compiler ended by a signal was not always
 reported

---
 skull/codegen/llvm/write.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index db53a58..0fc9a2d 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -266,7 +266,8 @@ static int sh(char *argv[]) {
 		return 1;
 	}
 
-	if (!WIFEXITED(status)) {
+	// the shell says the same of a command which ended because of a signal
+	if (!WIFEXITED(status) || WEXITSTATUS(status) > 128) {
 		fprintf(stderr, "skull: \"cc\" ended unexpectedly\n");
 		return 1;
 	}
-- 
2.43.0

