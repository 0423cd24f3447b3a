"""marshlint: repository specific static analysis of adriansahlman/marsh."""
