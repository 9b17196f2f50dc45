#pragma once
#include <string>
#include <vector>
#include <iterator>
#include <cstddef>
namespace lexy {
struct any_t {
	template<typename... A> constexpr any_t operator()(const A&...) const { return {}; }
	template<typename... A> constexpr any_t list(const A&...) const { return {}; }
	template<typename... A> constexpr any_t opt_list(const A&...) const { return {}; }
	constexpr any_t operator-() const { return {}; }
};
constexpr any_t operator>>(any_t, any_t) { return {}; } constexpr any_t operator|(any_t, any_t) { return {}; } constexpr any_t operator+(any_t, any_t) { return {}; } constexpr any_t operator/(any_t, any_t) { return {}; }
namespace dsl {
	template<typename> inline constexpr any_t p = {}; template<typename> inline constexpr any_t recurse = {}; template<typename> inline constexpr any_t error = {}; template<typename> inline constexpr any_t inline_ = {}; template<auto> inline constexpr any_t lit_c = {};
	struct hex {}; struct binary {}; struct decimal {}; template<typename> inline constexpr any_t digits = {};
	inline constexpr any_t whitespace, identifier, loop, break_, eof, literal_set, peek, peek_not, if_, while_, opt, sep, trailing_sep, quoted, backslash_escape, curly_bracketed, square_bracketed, parenthesized, comma, semicolon, equal_sign, else_;
	namespace ascii { inline constexpr any_t space, alpha, digit, alpha_underscore, alpha_digit, alpha_digit_underscore, newline, character, control; }
}
struct token_production {}; struct transparent_production {}; struct utf8_encoding {}; struct ascii_encoding {};
template<typename E = utf8_encoding> struct string_input { string_input() = default; template<typename... A> string_input(const A&...) {} };
template<typename I> struct input_reader {};
struct kind_t { const char* name() const { return ""; } bool is_token() const { return false; } bool is_root() const { return false; } bool is_production() const { return false; } };
struct lexeme_t { const char* begin() const { return nullptr; } const char* end() const { return nullptr; } size_t size() const { return 0; } };
template<typename R> struct parse_tree {
	struct node { kind_t kind() const { return {}; } lexeme_t lexeme() const { return {}; } std::vector<node> children() const { return {}; } const char* position() const { return nullptr; } node parent() const { return {}; } };
	node root() const { return {}; } bool empty() const { return true; } void clear() {}
};
struct result_t { bool is_success() const { return true; } operator bool() const { return true; } size_t error_count() const { return 0; } explicit operator int() const { return 0; } };
template<typename P, typename... A> result_t parse_as_tree(A&&...) { return {}; }
template<typename P, typename... A> result_t trace_to(A&&...) { return {}; }
struct loc_t { unsigned line_nr() const { return 0; } unsigned column_nr() const { return 0; } };
template<typename... A> loc_t get_input_location(const A&...) { return {}; }
struct visualization_options { int flags; }; inline constexpr visualization_options visualize_use_color{1}, visualize_fancy{2};
constexpr visualization_options operator|(visualization_options a, visualization_options b) { return {a.flags | b.flags}; }
}
#define LEXY_LIT(X) (lexy::any_t{})
#define LEXY_KEYWORD(X, Y) (lexy::any_t{})
namespace lexy_ext { inline constexpr int report_error = 0; template<typename P> struct default_prompt {}; template<typename P = int> struct shell { bool is_open() const { return false; } template<typename...A> int prompt_for_input(const A&...) { return 0; } struct wr { int x; }; }; }
