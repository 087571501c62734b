"""Which function decides which property."""
from . import (alias_checks, buffer_checks, calc_checks, conv_checks, data_checks, file_checks, lint_checks, name_checks, object_checks, parser_checks, schema_checks, vtu_checks,
               writer_checks)

CHECKS = {}
for m in (alias_checks, calc_checks, data_checks, parser_checks, buffer_checks, file_checks, conv_checks, lint_checks, name_checks, object_checks, writer_checks,
          schema_checks, vtu_checks):
    for n in dir(m):
        if n.startswith('check_'):
            CHECKS[n[len('check_'):]] = getattr(m, n)
