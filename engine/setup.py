import project
project.dump()
print('ok')
