def default_backend():
    return 'jvm'
