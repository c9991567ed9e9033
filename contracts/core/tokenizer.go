//verif:property C01
package core

// The lexical structure of a source s, character (byte) by character.

func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\f' }
func isSpecial(c byte) bool {
	switch c {
	case ' ', '\t', '\r', '\f', '\n', '\\', '#', '(', ')', '{', '}', '[', ']', '"', '$', ';', '*':
		return true
	}
	return false
}
func isOct(c byte) bool { return c >= '0' && c <= '7' }
func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}
func hexDigit(c byte) rune {
	if c <= '9' {
		return rune(c - '0')
	}
	if c >= 'a' {
		return rune(c - 'a' + 10)
	}
	return rune(c - 'A' + 10)
}

//verif:spec
func skipSpace(s string, i int) int {
	if i < len(s) && isSpace(s[i]) {
		return skipSpace(s, i+1)
	}
	return i
}

//verif:spec
func skipSame(s string, i int, c byte) int {
	if i < len(s) && s[i] == c {
		return skipSame(s, i+1, c)
	}
	return i
}

//verif:spec
func skipText(s string, i int) int {
	if i < len(s) && !isSpecial(s[i]) {
		return skipText(s, i+1)
	}
	return i
}

//verif:spec
func skipOct(s string, i int, n int) int {
	if n > 0 && i < len(s) && isOct(s[i]) {
		return skipOct(s, i+1, n-1)
	}
	return i
}

//verif:spec
func skipHex(s string, i int, n int) int {
	if n > 0 && i < len(s) && isHex(s[i]) {
		return skipHex(s, i+1, n-1)
	}
	return i
}

//verif:spec
func octStep(v rune, c byte) rune { return v*8 + rune(c-'0') }

//verif:spec
func hexStep(v rune, c byte) rune { return v*16 + hexDigit(c) }

// octValue, hexValue: the number whose digits are s[a] … s[b-1], modulo 2^32.
//
//verif:spec
func octValue(s string, a int, b int) rune {
	if b <= a {
		return 0
	}
	return octStep(octValue(s, a, b-1), s[b-1])
}

//verif:spec
func hexValue(s string, a int, b int) rune {
	if b <= a {
		return 0
	}
	return hexStep(hexValue(s, a, b-1), s[b-1])
}

// maxHex: the most hexadecimal digits after \x, \u and \U.
//
//verif:spec
func maxHex(e byte) int {
	switch e {
	case 'x':
		return 2
	case 'u':
		return 4
	case 'U':
		return 8
	}
	return 0
}

// lexEnd: where the token that starts at p ends.
//
//verif:spec
func lexEnd(s string, p int) int {
	c := s[p]
	if isSpace(c) {
		return skipSpace(s, p+1)
	}
	if c == '#' || c == '"' {
		return skipSame(s, p+1, c)
	}
	if c == '\\' {
		if p+1 >= len(s) {
			return p + 1
		}
		e := s[p+1]
		if e == '\n' {
			return skipSpace(s, p+2)
		}
		if isOct(e) {
			return skipOct(s, p+2, 2)
		}
		return skipHex(s, p+2, maxHex(e))
	}
	if isSpecial(c) {
		return p + 1
	}
	return skipText(s, p+1)
}

//verif:spec
func lexType(s string, p int) TokenType {
	switch s[p] {
	case ' ', '\t', '\r', '\f':
		return TokenType_WHITESPACE
	case '\n':
		return TokenType_NEWLINE
	case '\\':
		if p+1 >= len(s) {
			return TokenType_TEXT
		}
		if s[p+1] == '\n' {
			return TokenType_CONTINUATION
		}
		return TokenType_ESCAPE
	case '#':
		return TokenType_COMMENT
	case '(':
		return TokenType_OPEN_TUPLE
	case ')':
		return TokenType_CLOSE_TUPLE
	case '{':
		return TokenType_OPEN_BLOCK
	case '}':
		return TokenType_CLOSE_BLOCK
	case '[':
		return TokenType_OPEN_EXPRESSION
	case ']':
		return TokenType_CLOSE_EXPRESSION
	case '"':
		return TokenType_STRING_DELIMITER
	case '$':
		return TokenType_DOLLAR
	case ';':
		return TokenType_SEMICOLON
	case '*':
		return TokenType_ASTERISK
	}
	return TokenType_TEXT
}

// lexLiteral: what the token that starts at p and ends at q stands for.
//
//verif:spec
func lexLiteral(s string, p int, q int) string {
	if s[p] != '\\' || p+1 >= len(s) {
		return s[p:q]
	}
	e := s[p+1]
	switch e {
	case '\n':
		return " "
	case 'a':
		return "\a"
	case 'b':
		return "\b"
	case 'f':
		return "\f"
	case 'n':
		return "\n"
	case 'r':
		return "\r"
	case 't':
		return "\t"
	case 'v':
		return "\v"
	case '\\':
		return "\\"
	}
	if isOct(e) {
		return string(octValue(s, p+1, q))
	}
	if q > p+2 {
		return string(hexValue(s, p+2, q))
	}
	return s[p+1 : q]
}

// lineAt, columnAt: the line and column of position i.
//
//verif:spec
func lineAt(s string, i int) int {
	if i <= 0 {
		return 0
	}
	if s[i-1] == '\n' {
		return lineAt(s, i-1) + 1
	}
	return lineAt(s, i-1)
}

//verif:spec
func columnAt(s string, i int) int {
	if i <= 0 || s[i-1] == '\n' {
		return 0
	}
	return columnAt(s, i-1) + 1
}

func positionAt(s string, p SourcePosition) bool {
	return p.Index <= uint(len(s)) && int(p.Line) == lineAt(s, int(p.Index)) && int(p.Column) == columnAt(s, int(p.Index))
}

// goodStream: the stream is at a position of its source.
func goodStream(st *StringStream) bool {
	return st != nil && st.source.Content != nil && positionAt(*st.source.Content, st.cursor.current()) &&
		st.cursor.line <= st.cursor.index && st.cursor.column <= st.cursor.index
}

//verif:contract StringStream.End
//verif:pure
func contract_streamEnd(stream *StringStream) {
	requires(goodStream(stream))
	r := stream.End()
	ensures("at the end", r == (stream.cursor.index == uint(len(*stream.source.Content))))
}

//verif:contract StringStream.Current
//verif:pure
func contract_streamCurrent(stream *StringStream) {
	requires(goodStream(stream) && stream.cursor.index < uint(len(*stream.source.Content)))
	c := stream.Current()
	ensures("current character", c == (*stream.source.Content)[stream.cursor.index])
}

//verif:contract StringStream.Next
func contract_streamNext(stream *StringStream) {
	requires(goodStream(stream) && stream.cursor.index < uint(len(*stream.source.Content)))
	source, index := stream.source, stream.cursor.index
	modifies(stream)
	c := stream.Next()
	ensures("same source", stream.source.Content == source.Content && stream.source.Filename == source.Filename)
	ensures("advances", stream.cursor.index == index+1)
	ensures("character", c == (*source.Content)[index])
	ensures("stays good", goodStream(stream))
}

// lexed: t is the token of s at its position.
func lexed(s string, t *Token) bool {
	if !positionAt(s, t.Position) || t.Position.Index >= uint(len(s)) {
		return false
	}
	p := int(t.Position.Index)
	q := lexEnd(s, p)
	return p < q && q <= len(s) && t.Type == lexType(s, p) && t.Sequence == s[p:q] && t.Literal == lexLiteral(s, p, q)
}

// lexing: t is the token of s at its position, read up to position i; more text
// may follow a text token.
func lexing(s string, t *Token, i int) bool {
	if !positionAt(s, t.Position) || t.Position.Index >= uint(i) || i > len(s) {
		return false
	}
	p := int(t.Position.Index)
	if t.Type != lexType(s, p) || t.Sequence != s[p:i] || t.Literal != lexLiteral(s, p, i) {
		return false
	}
	if t.Type == TokenType_TEXT {
		return lexEnd(s, p) == skipText(s, i)
	}
	return lexEnd(s, p) == i
}

func sourceOf(t *Tokenizer) string {
	return *t.input.(*StringStream).source.Content
}
func indexOf(t *Tokenizer) int {
	return int(t.input.(*StringStream).cursor.index)
}

// startOf: where the next token to give starts.
func startOf(t *Tokenizer) int {
	if t.currentToken != nil {
		return int(t.currentToken.Position.Index)
	}
	return indexOf(t)
}

func goodTokenizer(t *Tokenizer) bool {
	if t == nil {
		return false
	}
	st, ok := t.input.(*StringStream)
	return ok && goodStream(st) &&
		(t.currentToken != nil || st.cursor.index == 0 || st.cursor.index == uint(len(*st.source.Content))) &&
		(t.currentToken == nil || lexing(*st.source.Content, t.currentToken, int(st.cursor.index)))
}

// between: the tokenizer has read the source up to the position where its current
// token, if any, ends; the stream is past that.
func between(t *Tokenizer, position SourcePosition) bool {
	if t == nil {
		return false
	}
	st, ok := t.input.(*StringStream)
	return ok && goodStream(st) && position.Index < st.cursor.index && positionAt(*st.source.Content, position) &&
		(t.currentToken == nil || lexing(*st.source.Content, t.currentToken, int(position.Index)))
}

//verif:contract Tokenizer.addToken
//verif:noreplay
func contract_addToken(tokenizer *Tokenizer, type_ TokenType, position SourcePosition, literal *string) {
	requires(between(tokenizer, position))
	s, p, q := sourceOf(tokenizer), int(position.Index), indexOf(tokenizer)
	requires(isSpecial(s[p]) || tokenizer.currentToken == nil || tokenizer.currentToken.Type != TokenType_TEXT)
	requires(type_ == lexType(s, p))
	if literal == nil {
		requires(s[p:q] == lexLiteral(s, p, q))
	} else {
		requires(*literal == lexLiteral(s, p, q))
	}
	if type_ == TokenType_TEXT {
		requires(lexEnd(s, p) == skipText(s, q))
	} else {
		requires(lexEnd(s, p) == q)
	}
	input, t := tokenizer.input, tokenizer.currentToken
	modifies(tokenizer)
	r := tokenizer.addToken(type_, position, literal)
	ensures("same input", tokenizer.input == input)
	ensures("gives the current token", r == t)
	if r != nil {
		ensures("complete", lexed(s, r) && lexEnd(s, int(r.Position.Index)) == p)
	}
	ensures("takes the new one", goodTokenizer(tokenizer) && tokenizer.currentToken != nil && isFresh(tokenizer.currentToken) && tokenizer.currentToken.Position.Index == position.Index)
}

//verif:contract Tokenizer.addText
//verif:noreplay
func contract_addText(tokenizer *Tokenizer, position SourcePosition) {
	requires(between(tokenizer, position))
	s, p, q := sourceOf(tokenizer), int(position.Index), indexOf(tokenizer)
	requires(q == p+1 && !isSpecial(s[p]))
	input, t := tokenizer.input, tokenizer.currentToken
	text := t != nil && t.Type == TokenType_TEXT
	start := startOf(tokenizer)
	modifies(tokenizer, t)
	r := tokenizer.addText(position)
	ensures("same input", tokenizer.input == input)
	ensures("good", goodTokenizer(tokenizer) && tokenizer.currentToken != nil)
	if text {
		ensures("gives nothing", r == nil)
		ensures("extends the current token", tokenizer.currentToken == t && startOf(tokenizer) == start)
	} else {
		ensures("gives the current token", r == t)
		if r != nil {
			ensures("complete", lexed(s, r) && lexEnd(s, int(r.Position.Index)) == p && int(r.Position.Index) == start)
		}
		ensures("takes the new one", isFresh(tokenizer.currentToken) && tokenizer.currentToken.Position.Index == position.Index)
	}
}

//verif:inv contract_tokenizerNext
func inv_tokenizerOuter(tokenizer *Tokenizer) bool {
	return goodTokenizer(tokenizer) && startOf(tokenizer) == old(func() int { return startOf(tokenizer) })
}

//verif:inv contract_tokenizerNext
func inv_tokenizerStream(tokenizer *Tokenizer) bool {
	st, ok := tokenizer.input.(*StringStream)
	return ok && goodStream(st) && tokenizer.input == old(func() SourceStream { return tokenizer.input }) && st.source.Content == old(func() *string { return tokenizer.input.(*StringStream).source.Content })
}

//verif:inv contract_tokenizerNext
func inv_tokenizerToken(tokenizer *Tokenizer) bool {
	return tokenizer.currentToken == old(func() *Token { return tokenizer.currentToken }) || isFresh(tokenizer.currentToken)
}

// In the loops within a token that starts at that position:
//
//verif:inv contract_tokenizerNext
func inv_tokenizerSpace(tokenizer *Tokenizer, position SourcePosition) bool {
	return skipSpace(sourceOf(tokenizer), indexOf(tokenizer)) == lexEnd(sourceOf(tokenizer), int(position.Index)) && uint(indexOf(tokenizer)) > position.Index
}

//verif:inv contract_tokenizerNext
func inv_tokenizerSame(tokenizer *Tokenizer, position SourcePosition, c byte) bool {
	return skipSame(sourceOf(tokenizer), indexOf(tokenizer), c) == lexEnd(sourceOf(tokenizer), int(position.Index)) && uint(indexOf(tokenizer)) > position.Index
}

//verif:inv contract_tokenizerNext
func inv_tokenizerOct(tokenizer *Tokenizer, position SourcePosition, i int) bool {
	s, p := sourceOf(tokenizer), int(position.Index)
	return 1 <= i && i <= 3 && indexOf(tokenizer) == p+1+i && skipOct(s, p+1+i, 3-i) == lexEnd(s, p)
}

//verif:inv contract_tokenizerNext
func inv_tokenizerOctValue(tokenizer *Tokenizer, position SourcePosition, codepoint rune) bool {
	return codepoint == octValue(sourceOf(tokenizer), int(position.Index)+1, indexOf(tokenizer))
}

//verif:inv contract_tokenizerNext
func inv_tokenizerHex(tokenizer *Tokenizer, position SourcePosition, e byte, i int) bool {
	s, p := sourceOf(tokenizer), int(position.Index)
	return 0 <= i && i <= maxHex(e) && indexOf(tokenizer) == p+2+i && skipHex(s, p+2+i, maxHex(e)-i) == lexEnd(s, p)
}

//verif:inv contract_tokenizerNext
func inv_tokenizerHexValue(tokenizer *Tokenizer, position SourcePosition, codepoint rune) bool {
	return codepoint == hexValue(sourceOf(tokenizer), int(position.Index)+2, indexOf(tokenizer))
}

//verif:variant contract_tokenizerNext
func var_tokenizer(tokenizer *Tokenizer) int { return len(sourceOf(tokenizer)) - indexOf(tokenizer) }

//verif:contract Tokenizer.Next
//verif:lean
func contract_tokenizerNext(tokenizer *Tokenizer) {
	requires(goodTokenizer(tokenizer))
	s := sourceOf(tokenizer)
	start := startOf(tokenizer)
	input, content, current := tokenizer.input, tokenizer.input.(*StringStream).source.Content, tokenizer.currentToken
	modifies(tokenizer, tokenizer.input.(*StringStream), tokenizer.currentToken)
	t := tokenizer.Next()
	ensures("same input", tokenizer.input == input && tokenizer.input.(*StringStream).source.Content == content)
	ensures("same source", sourceOf(tokenizer) == s)
	ensures("token changed or new", tokenizer.currentToken == nil || tokenizer.currentToken == current || isFresh(tokenizer.currentToken))
	if start >= len(s) {
		ensures("no more token", t == nil && tokenizer.currentToken == nil && indexOf(tokenizer) == len(s))
		return
	}
	ensures("gives a token", t != nil)
	ensures("at the start", int(t.Position.Index) == start)
	ensures("of the source", lexed(s, t))
	ensures("next one follows", startOf(tokenizer) == lexEnd(s, start))
	ensures("stays good", goodTokenizer(tokenizer))
}

//verif:contract StringStream.CurrentPosition
//verif:pure
func contract_streamPosition(stream *StringStream) {
	requires(goodStream(stream))
	r := stream.CurrentPosition()
	ensures("current position", r.Index == stream.cursor.index && r.Line == stream.cursor.line && r.Column == stream.cursor.column)
}

// reached: where the tokens end; the next one starts there.
func reached(s string, tokens []Token) int {
	if len(tokens) == 0 {
		return 0
	}
	return lexEnd(s, int(tokens[len(tokens)-1].Position.Index))
}

// tokensOf: the tokens are those of s from its start.
func tokensOf(s string, tokens []Token) bool {
	return forall(0, len(tokens), func(i int) bool {
		return lexed(s, &tokens[i]) && int(tokens[i].Position.Index) == reached(s, tokens[:i])
	})
}

//verif:inv contract_wholeSource
func inv_tokenizeTokens(tokenizer *Tokenizer, output TokenStream) bool {
	o, ok := output.(*ArrayTokenStream)
	return ok && tokensOf(sourceOf(tokenizer), o.tokens)
}

//verif:inv contract_wholeSource
func inv_tokenizeReached(tokenizer *Tokenizer, output TokenStream) bool {
	o, ok := output.(*ArrayTokenStream)
	return ok && reached(sourceOf(tokenizer), o.tokens) == startOf(tokenizer) && startOf(tokenizer) <= len(sourceOf(tokenizer))
}

//verif:inv contract_wholeSource
func inv_tokenizeGood(tokenizer *Tokenizer) bool {
	return goodTokenizer(tokenizer)
}

//verif:inv contract_wholeSource
func inv_tokenizeFresh(tokenizer *Tokenizer, output TokenStream) bool {
	st, ok := tokenizer.input.(*StringStream)
	o, ok2 := output.(*ArrayTokenStream)
	return ok && ok2 && isFresh(st) && isFresh(o) && isFresh(st.source.Content) && (tokenizer.currentToken == nil || isFresh(tokenizer.currentToken))
}

//verif:variant contract_wholeSource
func var_tokenize(tokenizer *Tokenizer) int { return len(sourceOf(tokenizer)) - startOf(tokenizer) }

//verif:contract Tokenizer.Tokenize
//verif:terminates
//verif:lean
//verif:abstract lexType lexLiteral lexEnd skipText skipSpace skipSame skipOct skipHex octValue hexValue octStep hexStep maxHex
func contract_wholeSource(tokenizer Tokenizer, source string) {
	modifies()
	tokens := tokenizer.Tokenize(source)
	ensures("tokens of the source", tokensOf(source, tokens))
	ensures("up to its end", reached(source, tokens) == len(source))
}
