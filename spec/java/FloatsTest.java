// reads "fn a b" lines, prints results: used by harness/selftest.py against scipy
public final class FloatsTest {
  public static void main(String[] a) throws Exception {
    java.io.BufferedReader r = new java.io.BufferedReader(new java.io.InputStreamReader(System.in));
    for (String l; (l = r.readLine()) != null; ) {
      String[] p = l.split(" ");
      double x = Double.parseDouble(p[1]), y = p.length > 2 ? Double.parseDouble(p[2]) : 0;
      double o = p[0].equals("gcdf") ? Floats.gammaP(y, x) : p[0].equals("gsf") ? Floats.gammaQ(y, x)
          : p[0].equals("ppf") ? Floats.ppnd16(x) : p[0].equals("ncdf") ? Floats.normCdf(x) : Floats.lgamma(x);
      System.out.println(o);
    }
  }
}
