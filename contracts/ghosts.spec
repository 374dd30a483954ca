ghostvar emitted int
ghostvar made seq[*Node]
ghostvar nmade int
logic kindOf(string) kind.Kind
// number of newlines in a text, and in its first k bytes
logic nlines(string) int
extern strings.Count(s, sub) (r)
  ensures sub == "\n" ==> r == nlines(s)
