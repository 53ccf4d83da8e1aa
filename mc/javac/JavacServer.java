import java.io.*;
import javax.tools.*;

/** javac, again and again in one process: arguments in (count, then each in UTF), status and diagnostics out. */
public class JavacServer {
    public static void main(String[] a) throws IOException {
        DataInputStream in = new DataInputStream(new BufferedInputStream(System.in));
        DataOutputStream out = new DataOutputStream(new BufferedOutputStream(System.out));
        System.setOut(System.err);
        JavaCompiler c = ToolProvider.getSystemJavaCompiler();
        while (true) {
            int n;
            try {
                n = in.readInt();
            } catch (EOFException e) {
                return;
            }
            String[] args = new String[n];
            for (int i = 0; i < n; i++) {
                args[i] = in.readUTF();
            }
            ByteArrayOutputStream err = new ByteArrayOutputStream();
            int rc = c.run(null, err, err, args);
            byte[] b = err.toByteArray();
            out.writeInt(rc);
            out.writeInt(b.length);
            out.write(b);
            out.flush();
        }
    }
}
