import ethereum.cryptography.CellsAndProofs;
import ethereum.cryptography.LibEthKZG;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.Arrays;

/** Makes the calls that arrive on standard input and answers on standard output. */
public class Driver {
    static class Args {
        int op;
        byte[] blob;
        byte[][] coms, cells, proofs;
        long[] idx;

        Args copy() {
            Args a = new Args();
            a.op = op;
            a.blob = blob == null ? null : blob.clone();
            a.coms = deep(coms);
            a.cells = deep(cells);
            a.proofs = deep(proofs);
            a.idx = idx == null ? null : idx.clone();
            return a;
        }

        static byte[][] deep(byte[][] l) {
            if (l == null) return null;
            byte[][] c = l.clone();
            for (int i = 0; i < c.length; i++) if (c[i] != null) c[i] = c[i].clone();
            return c;
        }

        boolean same(Args a) {
            return java.util.Arrays.equals(blob, a.blob)
                && java.util.Arrays.deepEquals(coms, a.coms)
                && java.util.Arrays.deepEquals(cells, a.cells)
                && java.util.Arrays.deepEquals(proofs, a.proofs)
                && java.util.Arrays.equals(idx, a.idx);
        }
    }

    static byte[] bytes(DataInputStream in) throws IOException {
        int n = in.readInt();
        if (n < 0) return null;
        byte[] b = new byte[n];
        in.readFully(b);
        return b;
    }

    static byte[][] list(DataInputStream in) throws IOException {
        int n = in.readInt();
        if (n < 0) return null;
        byte[][] l = new byte[n][];
        for (int i = 0; i < n; i++) l[i] = bytes(in);
        return l;
    }

    static Args args(DataInputStream in) throws IOException {
        Args a = new Args();
        a.op = in.readByte();
        a.blob = bytes(in);
        a.coms = list(in);
        int n = in.readInt();
        if (n >= 0) {
            a.idx = new long[n];
            for (int i = 0; i < n; i++) {
                in.readByte();
                in.readLong();
                a.idx[i] = in.readLong();
            }
        }
        a.cells = list(in);
        a.proofs = list(in);
        return a;
    }

    static void put(DataOutputStream o, byte[] b) throws IOException {
        if (b == null) {
            o.writeInt(-1);
        } else {
            o.writeInt(b.length);
            o.write(b);
        }
    }

    static void put(DataOutputStream o, byte[][] l) throws IOException {
        if (l == null) {
            o.writeInt(-1);
            return;
        }
        o.writeInt(l.length);
        for (byte[] b : l) put(o, b);
    }

    static void fail(DataOutputStream o, String m) throws IOException {
        o.writeByte(3);
        put(o, m.getBytes(StandardCharsets.UTF_8));
    }

    static byte[] call(LibEthKZG lib, Args a) throws IOException {
        Args before = a.copy();
        byte[] r = answer(lib, a);
        return before.same(a) ? r : new byte[] {10};
    }

    static byte[] answer(LibEthKZG lib, Args a) throws IOException {
        ByteArrayOutputStream bo = new ByteArrayOutputStream();
        DataOutputStream o = new DataOutputStream(bo);
        try {
            switch (a.op) {
                case 0: {
                    byte[] r = lib.blobToKZGCommitment(a.blob);
                    o.writeByte(0);
                    put(o, r);
                    break;
                }
                case 1:
                case 2: {
                    CellsAndProofs r = a.op == 1 ? lib.computeCellsAndKZGProofs(a.blob) : lib.recoverCellsAndKZGProofs(a.idx, a.cells);
                    if (r == null) {
                        o.writeByte(9);
                        break;
                    }
                    o.writeByte(1);
                    put(o, r.getCells());
                    put(o, r.getProofs());
                    break;
                }
                default: {
                    boolean r = lib.verifyCellKZGProofBatch(a.coms, a.idx, a.cells, a.proofs);
                    o.writeByte(2);
                    o.writeByte(r ? 1 : 0);
                }
            }
        } catch (Exception e) {
            bo.reset();
            fail(o, e.toString());
        }
        return bo.toByteArray();
    }

    public static void main(String[] argv) throws Exception {
        DataInputStream in = new DataInputStream(new BufferedInputStream(new FileInputStream(FileDescriptor.in), 1 << 20));
        DataOutputStream out = new DataOutputStream(new BufferedOutputStream(new FileOutputStream(FileDescriptor.out), 1 << 20));
        System.setOut(System.err);
        LibEthKZG[] slots = new LibEthKZG[256];
        while (true) {
            int cmd;
            try {
                cmd = in.readByte();
            } catch (EOFException e) {
                return;
            }
            int slot = in.readUnsignedByte();
            in.readByte();
            ByteArrayOutputStream bo = new ByteArrayOutputStream();
            DataOutputStream o = new DataOutputStream(bo);
            switch (cmd) {
                case 0:
                    bo.write(call(slots[slot], args(in)));
                    break;
                case 1: {
                    int flavour = in.readUnsignedByte();
                    int threads = in.readUnsignedByte();
                    try {
                        slots[slot] = flavour == 2 ? new LibEthKZG() : new LibEthKZG(flavour == 1, threads);
                        o.writeByte(4);
                    } catch (Exception e) {
                        fail(o, e.toString());
                    }
                    break;
                }
                case 2:
                    try {
                        if (in.readUnsignedByte() == 0) slots[slot].close();
                        else slots[slot].destroy();
                        o.writeByte(4);
                    } catch (Exception e) {
                        fail(o, e.toString());
                    }
                    break;
                case 3:
                    System.gc();
                    o.writeByte(4);
                    break;
                case 4: {
                    int n = in.readInt();
                    Args[] as = new Args[n];
                    for (int i = 0; i < n; i++) as[i] = args(in);
                    byte[][] rs = new byte[n][];
                    Thread[] ts = new Thread[n];
                    LibEthKZG lib = slots[slot];
                    for (int i = 0; i < n; i++) {
                        int k = i;
                        ts[i] = new Thread(() -> {
                            try {
                                rs[k] = call(lib, as[k]);
                            } catch (IOException e) {
                                throw new UncheckedIOException(e);
                            }
                        });
                    }
                    for (Thread t : ts) t.start();
                    for (Thread t : ts) t.join();
                    for (byte[] r : rs) bo.write(r);
                    break;
                }
                case 6: { // the same call again and again
                    int n = in.readInt();
                    Args a = args(in);
                    byte[] first = call(slots[slot], a);
                    for (int i = 1; i < n; i++) {
                        if (!Arrays.equals(first, answer(slots[slot], a))) {
                            first = new byte[] {11};
                            break;
                        }
                    }
                    bo.write(first);
                    break;
                }
                case 7: { // memory in use
                    System.gc();
                    o.writeByte(0);
                    o.writeInt(8);
                    o.writeLong(Runtime.getRuntime().totalMemory() - Runtime.getRuntime().freeMemory());
                    break;
                }
                default:
                    throw new IllegalStateException("command " + cmd);
            }
            out.write(bo.toByteArray());
            out.flush();
        }
    }
}
