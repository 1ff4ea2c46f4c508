"""xlrd-specific static analysis: an abstract interpreter over the AST plus rules."""
