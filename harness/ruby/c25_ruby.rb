# C25: the Ruby interface. A case is a list of choices (numbers); a failing list is made smaller and saved.
require 'json'
require 'stringio'
require 'set'
module GenericContainer; @libGenericContainer = ENV['GC_LIB']; end
$VERBOSE = nil
require ENV['GC_RB']
module Gcx; extend FFI::Library; ffi_lib ENV['GC_LIB']; attach_function :gcx_show, [ :pointer ], :string; attach_function :gcx_make, [ :pointer, :string ], :void; end
class Bad < StandardError; end
class Src # choices: drawn from a generator, or given
  attr_reader :taken
  def initialize(seed, given = nil, io = nil) @r = Random.new(seed); @given = given; @taken = []; @io = io end
  def below(n) v = @given ? (@given[@taken.length] || 0) % n : @r.rand(n); @taken << v; @io.write("#{v} ") if @io; v end
  def chance(a, b) below(b) >= b - a end   # 0: no
  def coin() below(2) == 1 end
  def range(a, b) a + below(b - a + 1) end
  def pick(x) x[below(x.length)] end
  def few(n) chance(1, 60) ? below(60) : below(n + 1) end
end
INTS = [ 0, 1, -1, 2, 7, 255, 256, 65535, -65536, 2147483647, -2147483648, 2147483646 ]
REALS = [ 0.0, -0.0, 1.0, 1.5, -2.25, 0.1, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, Float::INFINITY, -Float::INFINITY, Float::NAN, 1e16, 123456789.125, 2147483648.0 ]
CHARS = [ 'a', 'b', 'Z', '0', ' ', '_', '"', '\\', "\n", "\t", "%", "é", "ß", "漢", "😀", "'", ":", "#", "\u007f", "\u0001", "{", "]" ]
WORDS = [ '', 'true', 'false', 'nil', 'null', '1', '1.5', 'a', 'pippo', 'é', '[]', 'not managed' ]
def g_int(g) g.coin ? g.pick(INTS) : g.range(-20, 20) end
def g_real(g) g.coin ? g.pick(REALS) : g.range(-50, 50) / 8.0 end
def g_str(g) g.chance(1, 3) ? g.pick(WORDS).dup : (1..g.few(5)).map { g.pick(CHARS) }.join end
def g_key(g) case g.below(5) when 0, 1, 2 then g_str(g).to_sym when 3 then g_str(g) else g.range(-3, 12) end end
def g_scalar(g)
  case g.below(6)
  when 0 then g_int(g) when 1 then g_real(g) when 2 then g_str(g) when 3 then g_str(g).to_sym when 4 then g.coin else g.chance(1, 3) ? nil : g_int(g) end
end
def g_value(g, d)
  k = g.below(d > 0 ? 12 : 7)
  case k
  when 0..3 then g_scalar(g)
  when 4..6 # a list of one kind, or of numbers
    n = g.few(4)
    case g.below(7)
    when 0 then (1..n).map { g_int(g) } when 1 then (1..n).map { g_real(g) } when 2 then (1..n).map { g.coin } when 3 then (1..n).map { g_str(g) } when 4 then (1..n).map { g.coin ? g_str(g) : g_str(g).to_sym }
    when 5 then (1..n).map { g.coin ? g_int(g) : g_real(g) } else (1..n).map { g_scalar(g) } end
  when 7, 8 then (1..g.few(4)).map { g_value(g, d - 1) }
  else
    h = {}; seen = Set.new
    g.few(4).times { k = g_key(g); v = g_value(g, d - 1); h[k] = v if seen.add?(k.to_s) }
    h
  end
end
class Hashish; def initialize(h) @h = h end; def to_hash() @h end; end
def nodes(v) case v when Hash then 1 + v.values.sum { |x| nodes(x) } when Array then 1 + v.sum { |x| nodes(x) } else 1 end end
def hd(d) d.nan? ? '7ff8000000000000' : [d].pack('G').unpack1('H*') end
def hs(s) 'x' + s.b.unpack1('H*') end
def bool?(x) x == true || x == false end
def text?(x) x.is_a?(String) || x.is_a?(Symbol) end
# what the container has to hold (lists of no elements have no kind)
def held(v)
  case v
  when nil then 'N' when true then 'B 1' when false then 'B 0' when Integer then "I #{v}" when Float then "R #{hd(v)}" when String, Symbol then "S #{hs(v.to_s)}"
  when Array
    n = v.length
    if n == 0 then 'V 0'
    elsif v.all? { |x| bool?(x) } then "VB #{n} " + v.map { |x| x ? '1' : '0' }.join(' ')
    elsif v.all? { |x| x.is_a?(Integer) } then "VI #{n} " + v.join(' ')
    elsif v.all? { |x| x.is_a?(Integer) || x.is_a?(Float) } then "VR #{n} " + v.map { |x| hd(x.to_f) }.join(' ')
    elsif v.all? { |x| text?(x) } then "VS #{n} " + v.map { |x| hs(x.to_s) }.join(' ')
    else "V #{n} " + v.map { |x| held(x) }.join(' ') end
  when Hash then ("M #{v.length}" + v.map { |k, x| [k.to_s, x] }.sort_by { |k, _| k.b }.map { |k, x| " #{hs(k)} #{held(x)}" }.join)
  end
end
# and what has to be read back: texts for symbols, symbols for keys, reals for numbers in a list with reals
def back(v)
  case v
  when Symbol then v.to_s
  when Array then v.any? { |x| x.is_a?(Float) } && v.all? { |x| x.is_a?(Integer) || x.is_a?(Float) } ? v.map(&:to_f) : v.map { |x| back(x) }
  when Hash then v.map { |k, x| [k.to_s.to_sym, back(x)] }.to_h
  else v end
end
def diff(a, b, at = '$') # nil when the same
  case a
  when Float then b.is_a?(Float) && hd(a) == hd(b) ? nil : "#{at}: expected #{a.inspect}, found #{b.inspect}"
  when Array
    return "#{at}: expected #{a.inspect}, found #{b.inspect}" unless b.is_a?(Array) && a.length == b.length
    a.each_index { |i| r = diff(a[i], b[i], "#{at}[#{i}]"); return r if r }; nil
  when Hash
    return "#{at}: expected #{a.inspect}, found #{b.inspect}" unless b.is_a?(Hash) && a.length == b.length
    a.each { |k, x| return "#{at}: #{k.inspect} is missing in #{b.inspect}" unless b.key?(k); r = diff(x, b[k], "#{at}.#{k}"); return r if r }; nil
  else a.class == b.class && a == b ? nil : "#{at}: expected #{a.inspect}, found #{b.inspect}" end
end
def g_built(g, d) # [text for the C++ side, what Ruby has to see]
  case g.below(d > 0 ? 15 : 11)
  when 0 then [ 'N', nil ]
  when 1 then b = g.coin; [ b ? 'B 1' : 'B 0', b ]
  when 2 then i = g_int(g); [ "I #{i}", i ]
  when 3 then i = g.pick([ 0, -1, 2**31, -2**31 - 1, 2**53 + 1, 2**63 - 1, -2**63 ]); [ "L #{i}", i ]
  when 4 then r = g_real(g); [ "R #{hd(r)}", r ]
  when 5 then s = g_str(g); [ "S #{hs(s)}", s ]
  when 6 then v = (1..g.few(4)).map { g.coin }; [ "VB #{v.length} " + v.map { |x| x ? '1' : '0' }.join(' '), v ]
  when 7 then v = (1..g.few(4)).map { g_int(g) }; [ "VI #{v.length} " + v.join(' '), v ]
  when 8 then v = (1..g.few(4)).map { g_real(g) }; [ "VR #{v.length} " + v.map { |x| hd(x) }.join(' '), v ]
  when 9 then v = (1..g.few(4)).map { g_str(g) }; [ "VS #{v.length} " + v.map { |x| hs(x) }.join(' '), v ]
  when 10
    if g.coin then v = (1..g.few(4)).map { [ g_real(g), g_real(g) ] }; [ "VC #{v.length} " + v.flatten.map { |x| hd(x) }.join(' '), v ]
    else
      nr = g.below(4); nc = g.below(4); cx = g.coin; v = (1..nr).map { (1..nc).map { cx ? [ g_real(g), g_real(g) ] : g_real(g) } }
      [ "#{cx ? 'MC' : 'MR'} #{nr} #{nc} " + v.flatten.map { |x| hd(x) }.join(' '), v ]
    end
  when 11, 12 then v = (1..g.few(4)).map { g_built(g, d - 1) }; [ "V #{v.length} " + v.map { |x| x[0] }.join(' '), v.map { |x| x[1] } ]
  else h = {}; t = []; g.few(4).times { k = g_str(g); x = g_built(g, d - 1); next if h.key?(k.to_sym); h[k.to_sym] = x[1]; t << "#{hs(k)} #{x[0]}" }; [ "M #{t.length} " + t.join(' '), h ] end
end
$stat = { cases: 0, evals: 0, nontrivial: 0 }; $labels = Hash.new(0); $log = []; $nontrivial = false; $label = ''
def check(m) $stat[:evals] += 1; raise Bad, m if m end
def empty_kinds(t) t.gsub(/\bV[BIRS] 0\b/, 'V 0') end
def one(g)
  $log = []; $nontrivial = false; $label = ''; klass = GenericContainer::GenericContainer
  case g.below(8)
  when 0..3 # several containers, read in another order
    $label = 'load'; n = 1 + (g.chance(1, 3) ? g.below(3) : 0); vs = (1..n).map { g_value(g, g.below(4)) }; $log << "values #{vs.inspect}"; $nontrivial = vs.any? { |v| nodes(v) > 1 }
    gs = vs.map { klass.new }
    vs.each_with_index { |v, i| gs[i].load(v.is_a?(Hash) && g.chance(1, 10) ? Hashish.new(v) : v) }
    (0...n).to_a.rotate(g.below(n)).each do |i|
      t = empty_kinds(Gcx.gcx_show(gs[i].get_pointer).strip); e = held(vs[i])
      check(t == e ? nil : "the container holds #{t}, expected #{e}")
      got = gs[i].get_data; $log << "read #{got.inspect}"; check(diff(back(vs[i]), got))
      check(diff(back(vs[i]), gs[i].get_data)) if g.chance(1, 5)
    end
    check(gs.map(&:id).uniq.length == n ? nil : 'two containers have the same id')
  when 4..6 # what C++ stored
    $label = 'get_data'; t, e = g_built(g, g.below(4)); $log << "container #{t}"; $nontrivial = nodes(e) > 1
    a = klass.new; Gcx.gcx_make(a.get_pointer, t); o = g.coin ? klass.new : nil; o.load(1) if o
    got = a.get_data; $log << "read #{got.inspect}"; check(diff(e, got))
  else # a value that is refused, then others
    $label = 'refused'; $nontrivial = true; a = klass.new; bad = g.pick([ 2**31, -2**31 - 1, 2**63, 2**70, "x\0y" ]); v = bad
    g.range(0, 3).times { v = g.coin ? { g_key(g) => v } : (1..g.below(3)).map { g_scalar(g) } + [ v ] }
    $log << "refused #{v.inspect}"
    begin a.load(v); raised = false; rescue StandardError => e; raise if e.is_a?(Bad); raised = true end
    check(raised ? nil : 'a value that cannot be held is accepted')
    w = g_value(g, 2); w = [ w ] if w.is_a?(Hash) || w.nil?; $log << "then #{w.inspect}"
    b = klass.new; b.load(w); check(diff(back(w), b.get_data)) # another container
    a.load([ 1 ]); check(diff([ 1 ], a.get_data)); a.load(w) if !w.is_a?(Array); check(diff(back(w), a.get_data)) if !w.is_a?(Array)
    check(Gcx.gcx_show(a.get_pointer).strip == held(w) ? nil : 'the part, not the container, was replaced') if !w.is_a?(Array)
  end
end
$devnull = File.open(File::NULL, 'w')
def quietly
  o = $stdout; $stdout = $devnull; yield
ensure $stdout = o end
# run one case; returns nil or what failed
def attempt(g)
  quietly { one(g) }; nil
rescue Bad => e then e.message
rescue Exception => e then raise if e.is_a?(SignalException) || e.is_a?(SystemExit); "#{e.class}: #{e.message} at #{(e.backtrace || []).first}" end
def limits(cpu) Process.setrlimit(:CPU, cpu); Process.setrlimit(:AS, 8 << 30); Process.setrlimit(:CORE, 0) end
# in a process of its own: [what failed or nil, log, choices]
def apart(seed, given)
  r, w = IO.pipe; cr, cw = IO.pipe; cw.sync = true
  pid = fork { r.close; cr.close; limits(10); g = Src.new(seed, given, cw); $stderr.reopen(File::NULL); m = attempt(g); cw.close; w.write Marshal.dump([ m, $log, g.taken ]); w.close; exit!(0) }
  w.close; cw.close; t = Thread.new { cr.read }; d = r.read; r.close; Process.wait(pid); ch = t.value.split.map(&:to_i)
  d.empty? ? [ "the process died: #{$?.to_s.sub(/pid \d+ */, '')}", [ '(it died)' ], ch ] : Marshal.load(d)
end
CASE_SEED = ->(seed, shard, k) { ((seed * 1_000_003 + shard) << 32) + k }
# a batch in a process of its own; nil if it died
def batch(seed, shard, i, n)
  r, w = IO.pipe
  pid = fork do
    r.close; limits(120); $stat[:evals] = 0; $stderr.reopen(File::NULL); st = { n: 0, fail: nil, labels: {}, nt: [], samples: [] }
    n.times do |k|
      g = Src.new(CASE_SEED.(seed, shard, i + k)); m = attempt(g); st[:n] += 1; st[:labels][$label] = (st[:labels][$label] || 0) + 1
      if $nontrivial then st[:nt] << $log[0].hash; st[:samples] << $log.join("\n")[0, 400] if st[:samples].length < 2 end
      if m then st[:fail] = [ m, i + k ]; break end
    end
    ::GC.start; live = ObjectSpace.each_object(GenericContainer::GenericContainer).count
    st[:fail] ||= [ "#{live} containers nobody refers to are not collected after #{st[:n]} cases", nil ] if live > 1000
    st[:evals] = $stat[:evals]; w.write Marshal.dump(st); w.close; exit!(0)
  end
  w.close; d = r.read; r.close; Process.wait(pid); d.empty? ? nil : Marshal.load(d)
end
def shrink(ch, limit)
  best = ch; t0 = Time.now; again = true
  ok = lambda { |c| Time.now - t0 < limit && (m, _, tk = apart(0, c)) && m && (best = tk.length < c.length ? tk : c; true) }
  while again && Time.now - t0 < limit
    again = false
    [ 16, 8, 4, 2, 1 ].each { |k| i = 0; while i + k <= best.length; c = best[0...i] + best[i + k..]; ok.(c) ? again = true : i += 1; end }
    i = 0
    while i < best.length
      [ 0, best[i] / 2, best[i] - 1 ].uniq.each { |x| next if x >= best[i] || x < 0; c = best.dup; c[i] = x; if ok.(c) then again = true; break end }
      i += 1
    end
  end
  best
end
a = Hash[*ARGV]
if a['--replay']
  l = File.readlines(a['--replay']); b = l.find { |x| x.start_with?('batch') }
  if b then st = batch(*b.split[1..].map(&:to_i)); m = st ? (st[:fail] || [])[0] : 'the process died'; log = []
  else m, log, = apart(0, l.find { |x| x.start_with?('choices') }.split[2..].map(&:to_i)) end
  puts m ? "FAILED #{m}" : 'held'; puts log; exit(m ? 1 : 0)
end
seed = a['--seed'].to_i; shard = a['--shard'].to_i; cases = a['--cases'].to_i; budget = a['--budget'].to_f; t0 = Time.now
$stderr.reopen(File::NULL)
distinct = Set.new; samples = []; fail_ch = nil; i = 0
while i < cases && !fail_ch && Time.now - t0 < budget # in batches
  n = [ 2000, cases - i ].min; st = batch(seed, shard, i, n); last = "batch #{seed} #{shard} #{i} #{n}"
  if st.nil? # it died: find the case
    n.times { |k| m, = apart(CASE_SEED.(seed, shard, i + k), nil); if m then fail_ch = [ m, i + k ]; break end }
    fail_ch ||= [ 'the process died', nil ]
  else
    $stat[:cases] += st[:n]; $stat[:evals] += st[:evals]; $stat[:nontrivial] += st[:nt].length; distinct.merge(st[:nt]); st[:labels].each { |k, v| $labels[k] += v }; samples += st[:samples] if samples.length < 4
    fail_ch = st[:fail]
  end
  i += n
end
rule = 'Ruby values (true, false, nil, integers of 32 bits, floats, strings, symbols, lists of one and of several kinds, hashes with symbols, strings and integers as keys, nested) are loaded into one to three containers; what each holds is compared, through C++, with the value, and what get_data gives with it, in any order. Containers built in C++ (every kind get_data manages) are read by get_data. Values that cannot be held (integers beyond 32 bits, texts with NUL) at any depth must raise, and leave the container and the others usable. Containers nobody refers to are collected. Left open: loading over a map or list of maps (entries are kept), the kinds get_data reports as not managed. Non-trivial: more than one node, or a refusal.'
File.write(a['--out'], JSON.dump({ cases: $stat[:cases], evals: $stat[:evals], nontrivial: $stat[:nontrivial], distinct: distinct.size, labels: $labels, samples: samples.map { |s| s.dup.force_encoding('UTF-8').scrub }, rule: rule }))
exit 0 unless fail_ch
m, k = fail_ch; ch = log = []
if k
  m2, log, ch = apart(CASE_SEED.(seed, shard, k), nil)
  if m2 then ch = shrink(ch, 40); m, log, = apart(0, ch) else k = nil; log = [ 'only in a batch' ] end # it takes the cases before
end
File.write(a['--replayfile'], "property C25\n" + (k ? "kind choices\nchoices #{ch.length} #{ch.join(' ')}\n" : "#{last}\n") + "# what failed: #{m}\n# the case:\n" + log.map { |l| "#   #{l.dup.force_encoding('UTF-8').scrub}\n" }.join)
puts "FAILED #{m}"; puts log
exit 1
