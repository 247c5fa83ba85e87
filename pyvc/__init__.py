"""PyVC: contract-based deductive verification of the Python code in /repo."""
