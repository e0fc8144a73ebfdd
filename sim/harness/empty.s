// allows functions without a body
