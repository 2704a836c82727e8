//! Intact programs that faults are applied to. Between them they use every construct the parser
//! knows.
pub const PROGRAMS: &[&str] = &[
    "a = 1\nb = a + 2 * 3 ** 2 - -4\nputs a, b\n",
    "def fact(n)\n  if n <= 1\n    1\n  else\n    n * fact(n - 1)\n  end\nend\nputs fact(5)\n",
    "class Foo < Bar::Baz\n  attr_accessor :x, :y\n  CONST = 100\n  @@count = 0\n  def initialize(a, b = 2, *rest, c, k: 1, r:, **opts, &blk)\n    @a, @b = a, b\n    super\n  end\n  def self.make(*args)\n    new(*args) { |x, (y, z), *w, &q| x + y }\n  end\n  class << self\n    def foo=(v)\n      @v = v\n    end\n  end\nend\n",
    "module M\n  module N; X = 1; end\n  def +(o) o end\n  def [](i) @a[i] end\n  def []=(i, v); @a[i] = v; end\n  def -@; 0; end\n  def ==(x); true; end\n  def <=>(x) 0 end\n  def call?; false end\n  def run!; end\n  alias go run!\n  alias $new $old\n  alias :s :t\nend\n",
    "s = \"abc #{x + \"in #{y} ner\"} \\n \\x41 \\u3042 \\u{41 42} \\101 #$g #@iv é日本\"\nt = 'it''s \\' \\\\ ok'\nu = \"a\" \"b\" 'c'\n",
    "x = <<EOS\nline one #{1 + 2}\n  line two\nEOS\ny = <<-'RAW'\n  raw #{not}\n  RAW\nz = <<~SQ\n  squiggly\n    more\n  SQ\nputs x\n",
    "foo(<<A, <<B, 3)\nfirst #{a}\nA\nsecond\nB\nbar\n",
    "w = %w[a b c] + %w(x (y) z)\ni = %i{one two}\nq = %q(single 'q' (n))\nQ = %Q[double #{q} x]\nr = %r{^a/b$}i\np = %(paren #{1})\n",
    "if /ab[c-f]+\\d*\\/(\\w+)\\1/im =~ s then $~ else $1 end\nm = s !~ /x#{y}z#$a/x\nn = a / b / c\n",
    "case x\nwhen 1, 2 then :a\nwhen Integer, *list\n  :b\nwhen ->(n) { n > 5 }\n  :c\nelse\n  nil\nend\ncase\nwhen a == 1\n  2\nend\n",
    "begin\n  risky\nrescue Foo, Bar => e\n  puts e.message\nrescue => @err\n  retry_it\nrescue Baz\n  x = 1\nelse\n  ok\nensure\n  done\nend\ny = foo rescue 0\n",
    "while i < 10 do i += 1; next if i == 5; break unless ok; end\nuntil x.nil?\n  x = x.succ\nend\nfor a, b in hash do p a, b; redo end\nfor i in 1..10\n  p i\nend\np x while y\nbegin; z; end until w\n",
    "h = {a: 1, \"b\": 2, :c => 3, \"d\" => [1, 2, *xs], if: 4, nil => {}}\nk = h[:a][0]\nh[:x] ||= 5\nh[:y] &&= 6\nh[1, 2] = 3\no.p = 4\no.q += 5\no&.r\n",
    "a, b, *c = 1, *d, 2\n*x, y = foo\n(a, b) = 1\na, o.z, h[1], @i, $g = b, a\nx = y = z = 3\na = 1, 2\n",
    "f = ->(x, y = 2, *z, k: 3) { x + y }\ng = -> do 1 end\nh = lambda { |a; | a }\nf.(1, 2)\nf[3]\nf.call(*args, **kw, &blk)\nputs [1, 2].map(&:to_s).inject { |m, e| m + e }\n",
    "5.times do |i|\n  [1, 2, 3].each_with_index do |(a, b), j|\n    x = i\n    p x, a, b, j, _1\n  end\nend\nfoo.map { _1 + _2 }\n",
    "x = 0x1F_ff + 0b10_01 + 0o17 + 1_000_000 + 123456789012345678901234567890\ny = 1.5e10 - 2.5E-3 + 3e+2 + 4i + 2.5i\nz = -2 ** 2 + -2.0 ** 2 + ~5 + !true\nc = ?a + ?\\n + ?あ\n",
    "t = a ? b : c ? d : e\nu = (a and b or not c) && (d || !e)\nv = 1..10\nw = (1...x)\ndefined?(foo) && defined? @bar\nreturn 1, 2 if x\nyield a, b\nyield(c)\nsuper(1) { 2 }\n",
    "a <<= 1; b >>= 2; c |= 3; d &= 4; e ^= 5; f %= 6; g /= 7; h *= 8; i -= 9; j += 10\nx = a <=> b; y = a === b; z = a == b; q = a != b; r = a >= b\ns = a & b | c ^ d << 2 >> 1\n",
    "# comment\n\n  # another 日本語\nfoo # trailing\n.bar\n.baz(1,\n  2,\n)\nx = [\n  1,\n  2,\n]\ny = {\n  a: 1,\n  b: 2,\n}\nz = 1 +\n  2\nw = \\\n  3\n",
    "$a = $0 + $1 + $12 + $& + $' + $: + $\" + $LOAD_PATH + $LOADED_FEATURES + $_ + $!\n@a = @@b = A::B::C\n::Top::Level\nFoo::bar(1)\nFoo::Bar(2)\n__LINE__ + 1\nputs __FILE__\n",
    "`ls #{dir} -l`\nx = %x(ls)\ny = :\"sym#{a}\"\nz = :'q'\ns = [:a, :b?, :c!, :d=, :[], :[]=, :+, :<=>, :==, :!, :@iv, :@@cv, :-@]\n",
    "def f(...)\n  g(...)\n  h(1, ...)\nend\ndef a.b; end\ndef Foo.bar(x) x end\ndef @iv.m; end\ndef $g.m() end\ndef if; end\ndef é(ñ) ñ end\ndef x=(v) @x = v end\n",
    "変数 = 1\nputs 変数 + \"日本語\".size # コメント\ndef メソッド(引数) 引数 * 2 end\n",
    "puts [1, 2, 3].map do |x|\n  x * 2\nend\nfoo bar, :baz => 1, k: 2, \"s\" => 3 do |y| y end\nfoo bar baz 1\nfoo -1\nfoo [1]\nfoo *a, &b\nfoo !x\nfoo ::A\nfoo -> { 1 }\nfoo :sym\nfoo %w[a]\nfoo <<E\nx\nE\nfoo /re/\n",
    "x = if a then b else c end\ny = while z do break 1 end\nz = begin 1 end\nw = case 1 when 1 then 2 end\nv = (1; 2; 3)\nu = ()\nunless a then b else c end\nif a then b elsif c then d else e end\n",
    "class A; class B; def c; [1].each { |x| if x then while y do z; end end } end end end\n",
    "a = [[[[[[1, [2, {b: [3]}]]]]]]]\nb = ((((((1 + (2 * (3))))))))\nc = foo(bar(baz(qux(1, {x: {y: {z: 1}}}))))\nd = \"#{\"#{\"#{\"#{1}\"}\"}\"}\"\n",
    "puts(<<X.upcase + <<~Y)\nabc\nX\n  d#{\"e\"}f\n  Y\nx = <<`CMD`\necho #{a}\nCMD\n",
    "loop { break }\nloop do next 1, 2 end\nloop { redo }\n[1].each { return }\nclass << obj; self; end\ndefined?(x.y)\n",
];
