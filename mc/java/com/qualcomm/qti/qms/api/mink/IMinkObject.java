// Minimal stand-in for the Mink Java runtime API that the generated classes import.
package com.qualcomm.qti.qms.api.mink;

public interface IMinkObject {
    int OK = 0;
    int ERROR = 1;
    int ERROR_INVALID = 2;
    int ERROR_SIZE_IN = 3;
    int ERROR_SIZE_OUT = 4;
    int ERROR_MEM = 5;
    int ERROR_USERBASE = 10;
    int ERROR_DEFUNCT = -90;
    int ERROR_ABORT = -91;
    int ERROR_BADOBJ = -92;
    int ERROR_NOSLOTS = -93;
    int ERROR_MAXARGS = -94;
    int ERROR_MAXDATA = -95;
    int ERROR_UNAVAIL = -96;

    class InvokeException extends Exception {
        private final int mError;
        public InvokeException(int error) {
            super("Mink error " + error);
            mError = error;
        }
        public int getError() { return mError; }
    }

    void retain();
    void release();
    boolean isNull();
    void invoke(int methodID, byte[][] bi, int[] boSizes, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws InvokeException;
}
