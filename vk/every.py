"""All checks."""
from . import checks, checks_faults, checks_config, checks_template, checks_macro, checks_history, checks_memory, checks_clean, checks_portable
