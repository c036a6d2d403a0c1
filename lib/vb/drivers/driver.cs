// Schema-driven driver over generated C# code; values are built and inspected by reflection.
using System; using System.Collections; using System.Collections.Generic; using System.Globalization; using System.IO; using System.Reflection; using System.Text; using System.Text.Json;
namespace VbDriver {
class Mem { public string name, type; public bool list; }
class SD { public string name; public List<Mem> members = new(); }
class Schema {
  public bool ok; public string ns; public Dictionary<string, SD> structs = new(); public List<SD> messages = new(); public HashSet<string> enums = new();
  public Type T(string n) => typeof(Schema).Assembly.GetType(ns == null ? n : ns + "." + n, true);
}
static class Program {
  static Schema S; static string[] toks; static int pos; static StringBuilder o = new();
  static string Tok() { if (pos >= toks.Length) throw new Drv("token underrun"); return toks[pos++]; }
  class Drv : Exception { public Drv(string s) : base(s) {} }
  static int NI() => int.Parse(Tok(), CultureInfo.InvariantCulture);
  static void W(object x) { o.Append(' '); o.Append(Convert.ToString(x, CultureInfo.InvariantCulture)); }
  static byte[] Unhex(string s) => Convert.FromHexString(s.AsSpan(1));
  static string Hex(byte[] b, int from, int to) => "x" + Convert.ToHexString(b, from, to - from).ToLowerInvariant();
  static string UHex(string s) { var sb = new StringBuilder("s"); // lone surrogates in their own 3-byte form
    for (int i = 0; i < s.Length; i++) { int c = s[i]; if (char.IsHighSurrogate(s[i]) && i + 1 < s.Length && char.IsLowSurrogate(s[i+1])) { c = char.ConvertToUtf32(s[i], s[i+1]); i++; }
      if (c < 0x80) sb.Append(c.ToString("x2")); else if (c < 0x800) sb.Append((0xc0|c>>6).ToString("x2")).Append((0x80|c&63).ToString("x2")); else if (c < 0x10000) sb.Append((0xe0|c>>12).ToString("x2")).Append((0x80|c>>6&63).ToString("x2")).Append((0x80|c&63).ToString("x2"));
      else sb.Append((0xf0|c>>18).ToString("x2")).Append((0x80|c>>12&63).ToString("x2")).Append((0x80|c>>6&63).ToString("x2")).Append((0x80|c&63).ToString("x2")); }
    return sb.ToString(); }
  static object RdType(string t) {
    if (S.structs.TryGetValue(t, out var sd)) { var x = Activator.CreateInstance(S.T(t)); Build(sd, x); return x; }
    var k = Tok(); var ci = CultureInfo.InvariantCulture;
    switch (t) {
      case "string": return Encoding.UTF8.GetString(Unhex(k));
      case "bool": return k != "0"; case "byte": return byte.Parse(k, ci); case "uint16": return ushort.Parse(k, ci); case "int16": return short.Parse(k, ci);
      case "uint32": return uint.Parse(k, ci); case "int32": return int.Parse(k, ci); case "uint64": return ulong.Parse(k, ci); case "int64": return long.Parse(k, ci);
      case "float": return BitConverter.UInt32BitsToSingle(uint.Parse(k, ci)); case "double": return BitConverter.UInt64BitsToDouble(ulong.Parse(k, ci));
      default: var et = S.T(t); return Enum.ToObject(et, long.Parse(k, ci)); } }
  static void Build(SD sd, object x) { foreach (var m in sd.members) { var f = x.GetType().GetField(m.name); if (f == null) throw new Drv("no field " + m.name);
      if (m.list) { int n = NI(); var l = (IList)Activator.CreateInstance(f.FieldType); for (int i = 0; i < n; i++) l.Add(RdType(m.type)); f.SetValue(x, l); } else f.SetValue(x, RdType(m.type)); } }
  static void PrType(string t, object v) {
    if (v == null) { W("?null"); return; }
    if (S.structs.TryGetValue(t, out var sd)) { Pr(sd, v); return; }
    switch (t) { case "string": W(UHex((string)v)); break; case "bool": W((bool)v ? 1 : 0); break; case "float": W(BitConverter.SingleToUInt32Bits((float)v)); break; case "double": W(BitConverter.DoubleToUInt64Bits((double)v)); break;
      case "byte": case "uint16": case "int16": case "uint32": case "int32": case "uint64": case "int64": W(v); break;
      default: W(Convert.ToInt64(v)); break; } }
  static void Pr(SD sd, object x) { foreach (var m in sd.members) { var v = x.GetType().GetField(m.name).GetValue(x); if (m.list) { var l = (IList)v; if (l == null) { W("?null"); continue; } W(l.Count); foreach (var e in l) PrType(m.type, e); } else PrType(m.type, v); } }
  static object Call(object self, Type t, string name, params object[] a) { foreach (var mi in t.GetMethods()) if (mi.Name == name && mi.GetParameters().Length == a.Length && mi.IsStatic == (self == null)) { try { return mi.Invoke(self, a); } catch (TargetInvocationException e) { throw e.InnerException; } } throw new Drv("no method " + name); }
  static Type MT(int mi) => S.T(S.messages[mi - 1].name);
  static object New(int mi) => Activator.CreateInstance(MT(mi));
  static object Mk(int mi) { var x = New(mi); Build(S.messages[mi - 1], x); return x; }
  static int TypeOf(object m) => Convert.ToInt32(Call(m, m.GetType(), "GetMessageType"));
  static void PMsg(object m) { if (m == null) { W("?null"); return; } int mi = TypeOf(m); W(mi); if (mi >= 1 && mi <= S.messages.Count) { if (m.GetType() != MT(mi)) W("?wrongclass"); else Pr(S.messages[mi-1], m); } }
  static string EName(Exception e) => e.GetType().Name;
  class Slow : MemoryStream { public Slow(byte[] b) : base(b) {} public override int Read(byte[] b, int off, int n) => base.Read(b, off, Math.Min(n, 1)); public override int Read(Span<byte> s) => base.Read(s.Slice(0, Math.Min(1, s.Length))); }
  static BinaryReader View(int style, out byte[] buf) { int vo = NI(), off = NI(), trail = NI(); var d = Unhex(Tok()); buf = new byte[off + d.Length]; Array.Fill(buf, (byte)0xAA); Array.Copy(d, 0, buf, off, d.Length);
    var ms = style == 1 ? new Slow(buf) : new MemoryStream(buf); ms.Position = off; return new BinaryReader(ms); }
  static void POut(Array l) { W(l.Length); foreach (var m in l) PMsg(m); }
  static Array MsgArr(List<object> l) { var a = Array.CreateInstance(S.T("Message"), l.Count); for (int i = 0; i < l.Count; i++) a.SetValue(l[i], i); return a; }
  static void Dirty(SD sd, object x) { foreach (var m in sd.members) { var f = x.GetType().GetField(m.name); var v = f.GetValue(x); if (m.list) { ((IList)v).Add(S.structs.ContainsKey(m.type) ? Activator.CreateInstance(S.T(m.type)) : m.type == "string" ? "dirt" : Activator.CreateInstance(f.FieldType.GetGenericArguments()[0])); }
      else if (S.structs.TryGetValue(m.type, out var sub)) Dirty(sub, v); else if (m.type == "string") f.SetValue(x, "dirt"); else if (m.type == "bool") f.SetValue(x, true); else if (S.enums.Contains(m.type)) f.SetValue(x, Enum.ToObject(f.FieldType, 7)); else f.SetValue(x, Convert.ChangeType(7, f.FieldType)); } }
  static void Op(string c) {
    switch (c) {
      case "W": case "G": { int mi = NI(); bool tag = NI() != 0; NI(); NI(); NI(); int off = NI(); var x = Mk(mi); var ms = new MemoryStream(); var bw = new BinaryWriter(ms); object sz = -1;
        try { sz = Call(x, x.GetType(), "GetSizeInBytes"); } catch (Exception e) when (e is not Drv) { }
        try { Call(x, x.GetType(), "WriteBytes", bw, tag); } catch (Exception e) when (e is not Drv) { W("err"); W(EName(e)); W(sz); W(sz); W(1); return; }
        bw.Flush(); var b = ms.ToArray(); W("ok"); W(sz); W(sz); W(off + b.Length); W(1); W(Hex(b, 0, b.Length)); break; }
      case "R": { int mi = NI(), style = NI(); var br = View(style, out var buf); object m; try { m = Call(null, MT(mi), "FromBytes", br); } catch (Exception e) when (e is not Drv) { W("err"); W(EName(e)); return; }
        Array.Fill(buf, (byte)0xEE); W("ok"); W(br.BaseStream.Position); PMsg(m); break; }
      case "P": case "U": { int max = c == "P" ? NI() : 0; var br = View(0, out var buf); object l; try { l = c == "P" ? Call(null, S.T("Message"), "ProcessRawBytes", br, max) : Call(null, S.T("Message"), "UnpackMessages", br); } catch (Exception e) when (e is not Drv) { W("err"); W(EName(e)); return; }
        Array.Fill(buf, (byte)0xEE); W("ok"); W(br.BaseStream.Position); POut((Array)l); break; }
      case "K": { NI(); NI(); NI(); int off = NI(), n = NI(); var l = new List<object>(); for (int i = 0; i < n; i++) l.Add(Mk(NI())); var a = MsgArr(l); var ms = new MemoryStream(); var bw = new BinaryWriter(ms); object sz = -1;
        try { sz = Call(null, S.T("Message"), "GetPackedSize", a); } catch (Exception e) when (e is not Drv) { }
        try { Call(null, S.T("Message"), "PackMessages", a, bw); } catch (Exception e) when (e is not Drv) { W("err"); W(EName(e)); W(sz); W(1); return; }
        bw.Flush(); var b = ms.ToArray(); W("ok"); W(sz); W(off + b.Length); W(1); W(Hex(b, 0, b.Length)); break; }
      case "Q": { NI(); int off = NI(); NI(); NI(); int n = NI(); var ms = new MemoryStream(); for (int i = 0; i < off; i++) ms.WriteByte(0xAA); var bw = new BinaryWriter(ms); W("ok"); var it = new List<(int, bool)>();
        for (int i = 0; i < n; i++) { int mi = NI(); bool tag = NI() != 0; var x = Mk(mi); it.Add((mi, tag)); Call(x, x.GetType(), "WriteBytes", bw, tag); bw.Flush(); W("w"); W(ms.Position); }
        var b = ms.ToArray(); W("b"); W(1); W(Hex(b, off, b.Length)); var br = new BinaryReader(new MemoryStream(b)); br.BaseStream.Position = off;
        foreach (var (mi, tag) in it) { try { if (tag) { var l = (Array)Call(null, S.T("Message"), "ProcessRawBytes", br, 1); W("t"); W(br.BaseStream.Position); POut(l); } else { var m = Call(null, MT(mi), "FromBytes", br); W("r"); W(br.BaseStream.Position); PMsg(m); } } catch (Exception e) when (e is not Drv) { W("rerr"); return; } }
        break; }
      case "D": { int mi = NI(), style = NI(); var x = New(mi); if (style == 1) { Dirty(S.messages[mi-1], x); x = New(mi); } var ms = new MemoryStream(); var bw = new BinaryWriter(ms); string h = "x"; object sz = -1; try { sz = Call(x, x.GetType(), "GetSizeInBytes"); } catch (Exception e) when (e is not Drv) {}
        try { Call(x, x.GetType(), "WriteBytes", bw, true); bw.Flush(); var b = ms.ToArray(); h = Hex(b, 0, b.Length); } catch (Exception e) when (e is not Drv) {} W("ok"); W(sz); W(sz); W(TypeOf(x)); W(h); Pr(S.messages[mi-1], x); break; }
      case "T": W("ok"); for (int i = 0; i < S.messages.Count; i++) { W(S.messages[i].name); object k; try { k = Convert.ToInt32(Enum.Parse(S.T("MessageType"), S.messages[i].name + "Type")); } catch (ArgumentException) { k = -1; } W(k); W(TypeOf(New(i + 1))); } break;
      default: W("badop"); break;
    } }
  static SD RdSD(JsonElement e) { var sd = new SD { name = e.GetProperty("name").GetString() }; foreach (var m in e.GetProperty("members").EnumerateArray()) sd.members.Add(new Mem { name = m[0].GetString(), type = m[1].GetString(), list = m[2].GetBoolean() }); return sd; }
  static int Main(string[] args) {
    var schemas = new List<Schema>(); var doc = JsonDocument.Parse(File.ReadAllText(args[0]));
    foreach (var e in doc.RootElement.EnumerateArray()) { var s = new Schema { ok = e.GetProperty("_ok").GetBoolean(), ns = e.GetProperty("ns").GetString() }; foreach (var x in e.GetProperty("structs").EnumerateArray()) { var sd = RdSD(x); s.structs[sd.name] = sd; } foreach (var x in e.GetProperty("messages").EnumerateArray()) s.messages.Add(RdSD(x)); foreach (var x in e.GetProperty("enums").EnumerateArray()) s.enums.Add(x.GetProperty("name").GetString()); schemas.Add(s); }
    var si = Console.OpenStandardInput(); var rd = new StreamReader(si, Encoding.ASCII, false, 1 << 16); var wr = new StreamWriter(Console.OpenStandardOutput(), new UTF8Encoding(false)); string line;
    while ((line = rd.ReadLine()) != null) { if (line.Length == 0) continue; toks = line.Split(' '); pos = 0; o.Clear(); var id = Tok(); S = schemas[NI()]; var c = Tok(); NI(); NI();
      if (!S.ok) W("noschema"); else try { Op(c); } catch (Exception e) { Console.Error.WriteLine("driver error " + id + " " + e); o.Clear(); W("drivererr"); W(EName(e)); }
      wr.Write(id); wr.Write(o.ToString()); wr.Write("\n"); wr.Flush(); }
    return 0; }
}}
