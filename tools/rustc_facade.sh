#!/bin/bash
# rustc wrapper: hands the facade std to the crates under test and to the harness, the real one to all others.
case " $* " in
*" --crate-type proc-macro "* | *" --crate-name rx_core_macro_"* | *" --crate-name build_script_"*) ;;
*" --crate-name rx_"* | *" --crate-name mcb "*) exec "$@" --extern "std=$RXMC_FACADE" -L "dependency=$(dirname "$RXMC_FACADE")" ;;
esac
exec "$@"
